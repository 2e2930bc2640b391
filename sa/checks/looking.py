"""Looking at and changing a stopped playbook: C26 to C29."""

from __future__ import annotations

import ast

from ..calls import MUTATORS
from ..program import AnalysisError
from ..report import Check
from ._util import *
from .adapter import handler
from .strategy import DBG, STATE

VAR = f"{STRAT}.AnsibleVariable"
TYPE_NAME = f"{PU}._variables.get_canonicalized_variable_type"
PARSE = f"{PU}._repl_util.parse_repl_args"
VIEWS = {"get_threads": "ThreadsRequest", "get_stacktrace": "StackTraceRequest", "get_scopes": "ScopesRequest", "get_variables": "VariablesRequest", "evaluate": "EvaluateRequest"}
COPIES = ("list", "dict", "set", "tuple", "copy", "sorted", "asdict", "deepcopy", "frozenset", "fromkeys", "ChainMap", "defaultdict", "Counter", "OrderedDict", "deque", "union", "difference", "intersection", "split", "splitlines")
EFFECTS = frozenset(MUTATORS) | {"set", "set_state", "notify", "notify_all", "__setitem__", "__delitem__", "shuffle", "heapify", "combine_vars", "setattr", "delattr"}


def variable_classes(chk: Check) -> list[t.Any]:
    p = chk.program
    res = [c for q, c in p.classes.items() if q.startswith(STRAT) and p.is_subclass(q, VAR) and q != VAR]
    if not res:
        raise AnalysisError(f"no kind of {VAR}")
    return res


def method_of(chk: Check, cls: t.Any, name: str) -> FuncInfo | None:
    return chk.program.find_method(cls.qual, name)


def effect(e: Ev) -> bool:
    """Something that may change what it is done to."""
    if e.kind in ("setattr", "delattr", "setitem", "delitem"):
        return True
    return e.kind in ("call", "enter") and (e.name in EFFECTS or e.name.startswith(("set_", "add_", "clear_", "update_", "remove_", "reset_")))


def made_here(x: T) -> bool:
    """A value that did not exist before the request."""
    x = unver(x)
    if x.k in ("new", "lit", "comp", "gen", "cat", "tuple", "partial"):
        return True
    # The result of a function that makes a new container, however it is called.
    return is_op(x, *COPIES) or tail(show(x).rsplit("(", 1)[0] if x.k == "call" and show(x).endswith("()") else show(x).split("(")[0]) in COPIES and "(" in show(x)


def external(chk: Check, x: T) -> bool:
    """A helper object of a library that was made for this request: a parser, a lexer, a templar."""
    text = show(x)
    return text.split("#")[0].split("(")[0].split(".")[0] in ("ErrorCapturingParser", "ArgumentParser", "shlex", "Templar", "AnsibleTemplar") or made_here(base_of(x))


def command_of(p: Path, call: Ev) -> set[str]:
    """The kinds of command that the parsed line is known to be or may be."""
    kinds = {"TemplateCommand", "RemoveVarCommand", "SetVarCommand", "str"}
    word = {"template": "TemplateCommand", "remove_option": "RemoveVarCommand", "set_option": "SetVarCommand", "set_hostvar": "SetVarCommand"}
    r = plain(call.res)
    for k, v in p.pc.items():
        if is_op(k, "isa") and plain(k.a[1]) is r:
            n = tail(str(k.a[2].a[0]))
            if n in kinds:
                kinds = {n} if v else kinds - {n}
            elif n == "ReplCommand":
                kinds = kinds - {"str"} if v else {"str"}
        elif is_op(k, "eq") and v:
            for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                q = plain(a)
                if b.k == "const" and b.a[0] in word and root(q) is root(r) and attr_path(q)[1][-1:] == ["command"]:
                    kinds &= {word[b.a[0]]}
    return kinds


def c26(chk: Check) -> None:
    """Looking at a stopped playbook does not change it."""
    paths = funcs = 0
    for name, msg in VIEWS.items():
        f = chk.program.func(f"{STATE}.{name}")
        kw: dict = {"pred": effect, "names": ("parse_repl_args",), "kinds": (), "pure": (TYPE_NAME,), "pins": ("isa",)}
        if name == "evaluate":
            kw["opaque"] = (PARSE,)
        for p in slim(chk, f, **kw):
            parsed = calls(p.events, "parse_repl_args")
            if parsed and command_of(p, parsed[-1]) & {"RemoveVarCommand", "SetVarCommand"} and command_of(p, parsed[-1]) <= {"RemoveVarCommand", "SetVarCommand"}:
                continue
            paths += 1
            only_looks(chk, p, f"{name} on a stopped playbook")
        h = handler(chk, DBG, msg)
        for p in slim(chk, h, pred=effect, kinds=(), opaque=[f"{STATE}.{name}", f"{DEBUGGEE}.DebugState.{name}"]):
            paths += 1
            only_looks(chk, p, f"handling a {msg}")
        funcs += 2
    if True:
        for c in variable_classes(chk):
            for n in ("get", "named_variables", "indexed_variables"):
                m = method_of(chk, c, n)
                if m is None:
                    continue
                funcs += 1
                for p in slim(chk, m, pred=effect, kinds=()):
                    paths += 1
                    only_looks(chk, p, f"listing a {tail(c.qual)}")
    chk.floor(paths, 30, "paths of requests that only look")
    chk.floor(funcs, 12, "functions that only look")


def only_looks(chk: Check, p: Path, what: str) -> None:
    new_vars = {plain(e.recv) for e in p.events if e.kind == "setattr" and e.recv is not None and e.recv.k == "new"}
    for e in p.events:
        if not effect(e) or e.kind == "enter":
            continue
        if e.recv is None:
            if e.name in ("setattr", "delattr", "shuffle", "heapify"):
                chk.must(bool(e.args) and made_here(e.args[0]), "only-looks", e, f"{what} changes {show(e.args[0]) if e.args else '?'}", p)
            continue
        chk.must(harmless(chk, p, e), "only-looks", e, f"{what} does {verb(e)} on {show(plain(e.recv))[:90]}", p)


def verb(e: Ev) -> str:
    return {"setattr": f"an assignment of .{e.name}", "delattr": f"a removal of .{e.name}", "setitem": "an item assignment", "delitem": "an item removal"}.get(e.kind, e.name)


def harmless(chk: Check, p: Path, e: Ev) -> bool:
    r = plain(e.recv)
    if made_here(r) or made_here(root(r)) and external(chk, r):
        return True
    text, path = show(r), attr_path(r)[1]
    if external(chk, r) and e.kind in ("call", "setattr"):
        return True
    # Handing out ids and new variables.
    if e.kind == "setattr" and e.name.endswith("_counter"):
        return True
    if e.kind == "setattr" and e.name.startswith("variables_") and e.name.endswith("_id"):
        return True
    if path[-1:] == ["variables"]:
        if e.kind == "setitem" or e.name == "__setitem__":
            return len(e.args) > 1 and e.args[1].k == "new"
        return e.name in ("append", "add")
    if e.name in ("put", "put_nowait"):
        return True
    return False


# --- C27 ---------------------------------------------------------------------
def templated(p: Path, v: T | None, source: T, task_vars: T) -> bool:
    """The value is the result of templating the source as an expression with the variables of the task."""
    if v is None:
        return False
    v = plain(v)
    done = [e for e in calls(p.events, "template") if plain(e.res) is v]
    if not done:
        return False
    e = done[-1]
    a = e.arg(0, "variable")
    if a is None or not expression_of(plain(a), plain(source)):
        return False
    made = [x for x in p.events if x.kind == "new" and "Templar" in tail(x.name) and e.recv is not None and (x.res is unver(e.recv) or any(y is x.res for y in walk_term(e.recv)))]
    return bool(made) and plain(made[-1].arg(1, "variables") or NONE) is plain(task_vars)


def expression_of(a: T, source: T) -> bool:
    """{{ source }}, whatever it is wrapped in to be trusted."""
    for x in walk_term(a):
        if x.k == "cat" or is_op(x, "cat"):
            parts = [y for y in (x.a if x.k == "cat" else x.a[1:]) if isinstance(y, T)]
            text = "".join(str(y.a[0]) if y.k == "const" else "\0" for y in parts)
            if text.replace(" ", "") == "{{\0}}" and [y for y in parts if y.k != "const"] == [source]:
                return True
    return False


def is_sub(x: t.Any, attr: str) -> T | None:
    """The key of an item of a container with that name."""
    x = plain(x)
    if x.k == "item" and attr_path(x.a[0])[1][-1:] == [attr]:
        return plain(x.a[1])
    return None


class Made:
    """A variable that is made for the client: its class, its fields and the id it is registered with."""

    def __init__(self, p: Path, term: T) -> None:
        self.term = term
        self.fields = {e.name: plain(e.args[0]) for e in p.events if e.kind == "setattr" and e.recv is term}
        new = [e for e in p.events if e.kind in ("new", "enter") and (e.res is term or e.recv is term)]
        self.cls = next((q for q in (e.callee for e in new if e.kind == "new")), None)
        keys = [e for e in p.events if e.kind == "setitem" and e.recv is not None and attr_path(e.recv)[1][-1:] == ["variables"] and e.args[1] is term]
        self.id = plain(keys[-1].args[0]) if keys else None


def made_variables(chk: Check, p: Path) -> list[Made]:
    names = {tail(c.qual) for c in variable_classes(chk)}
    return [Made(p, e.res) for e in p.events if e.kind == "new" and tail(e.callee) in names]


def shown_attr(chk: Check, cls: t.Any) -> str:
    """The attribute whose content a kind of variable lists."""
    m = method_of(chk, cls, "get")
    res: set[str] = set()
    for p in slim(chk, m, kinds=("yield",), pred=effect):
        for x in [y for v in [p.value, *[e.args[0] for e in p.events if e.kind == "yield"]] for y in walk_term(plain(v))]:
            if x.k == "attr" and isinstance(x.a[0], T) and x.a[0].k == "param":
                res.add(x.a[1])
    res -= {"id", "stackframe"}
    if len(res) != 1:
        raise AnalysisError(f"anchor vanished: what {cls.qual}.get lists ({sorted(res)})")
    return res.pop()


def class_named(chk: Check, q: str) -> t.Any:
    return next(c for c in variable_classes(chk) if c.qual == q or tail(c.qual) == tail(q))


def stores(chk: Check, cls: t.Any, attrs: list[str], rule: str, number: bool = False) -> None:
    """set stores the value under the index in all of the containers."""
    m = method_of(chk, cls, "set")
    for p in returns(slim(chk, m, kinds=("loopzero",), pred=effect, names=("__setitem__",), pins=attrs)):
        # The options of a module and the variables of a host have names
        named = any(e.kind in ("call", "setitem") and e.recv is not None and own_attr(e.recv) not in (None, *attrs[:1]) for e in p.events)
        for a in attrs:
            done = [(e, *kv) for e in p.events if e.recv is not None and own_attr(e.recv) == a for kv in pairs(e)]
            chk.must(len(done) == 1, rule, m, f"setting an item of a {tail(cls.qual)} does not store it once in {a}", p)
            for e, k, v in done:
                if number:
                    chk.must(is_op(k, "int") and unver(k.a[1]).k == "param" or k.k == "call" and show(k).startswith("int("), rule, e, f"the index of a list item is {show(k)}, not the number that was given", p)
                else:
                    of_item = a == attrs[0] and named_item(p, a, k, m)
                    chk.must(is_param(k, m, 1) or of_item, rule, e, f"the name the value is stored under is {show(k)}, not the one given", p)
                    if a == attrs[0] and not named:
                        chk.must(of_item or is_param(k, m, 1) and (has_item(p, a, m) or no_item_named(p, a, m)), "item-shown-by-its-name", e, "an item the client knows by the string of its key is the one that is set", p)
                chk.must(is_param(v, m, 2), rule, e, f"what is stored is {show(v)}, not the value given", p)


def by_name(k: T, attr: str, m: FuncInfo) -> bool:
    """A comparison of the string of an item's key with the given name."""
    n = names_in(plain(k))
    given = any(is_param(x, m, 1) for x in walk_term(plain(k)))
    return given and attr in n and any(is_op(x, "str") or is_op(x, "call") and show(x).startswith("str(") for x in walk_term(plain(k)))


def is_name(x: T, k: T) -> bool:
    return (is_op(x, "str") or x.k == "call" or is_op(x, "call")) and show(x) == f"str({show(k)})"


def named_item(p: Path, attr: str, k: T, m: FuncInfo) -> bool:
    """The key is the one of the item with the given name."""
    k = plain(k)
    if k.k == "elem" or k.k == "item":
        eq = [plain(f) for f, v in p.pc.items() if v and is_op(f, "eq") and by_name(f, attr, m)]
        if k.k == "elem" or eq:
            return attr in names_in(k) and any(is_name(x, k) and is_param(y, m, 1) for f in eq for x, y in (f.a[1:3], f.a[2:0:-1]))
    return by_name(k, attr, m)


def has_item(p: Path, attr: str, m: FuncInfo) -> bool:
    return any(v and is_op(f, "in") and is_param(f.a[1], m, 1) and attr in names_in(plain(f.a[2])) for f, v in p.pc.items())


def no_item_named(p: Path, attr: str, m: FuncInfo) -> bool:
    if any(not v and by_name(f, attr, m) for f, v in p.pc.items()):
        return True
    return any(e.kind == "loopzero" and e.recv is not None and attr in names_in(plain(e.recv)) for e in p.events)


def pairs(e: Ev) -> list[tuple[T, T]]:
    """The items that are stored."""
    if e.kind == "setitem" or e.name == "__setitem__":
        return [(unver(e.args[0]), unver(e.args[1]))]
    if e.name == "update" and e.kind == "call":
        o = obj(e, 0)
        if isinstance(o, Obj) and o.kind == "dict" and not o.open:
            return [(unver(getattr(k, "term", k)), unver(getattr(v, "term", v))) for k, v in o.fields]
    return []


def caught(e: Ev, *names: str) -> bool:
    """The exception is handled around it."""
    f = e.func.node if hasattr(e.func, "node") else None
    for n in ast.walk(f) if f is not None else []:
        if isinstance(n, ast.Try) and any(x is e.node for s in n.body for x in ast.walk(s)):
            for h in n.handlers:
                if h.type is None or {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} & set(names):
                    return True
        if isinstance(n, ast.With) and any(x is e.node for s in n.body for x in ast.walk(s)):
            for i in n.items:
                if "suppress" in ast.dump(i.context_expr) and {x.id for x in ast.walk(i.context_expr) if isinstance(x, ast.Name)} & set(names):
                    return True
    return False


def is_param(x: T, f: FuncInfo, i: int) -> bool:
    names = [a.arg for a in [*f.node.args.posonlyargs, *f.node.args.args]]
    return x.k == "param" and x.a[0] == names[i]


def own_attr(x: t.Any) -> str | None:
    base, path = attr_path(plain(x))
    return path[0] if len(path) == 1 and base.k == "param" else None


def scopes_paths(chk: Check) -> list[Path]:
    f = chk.program.func(f"{STATE}.get_scopes")
    return returns(slim(chk, f, pred=effect, names=("Scope", "ScopesResponse", "Templar", "template", *[tail(c.qual) for c in variable_classes(chk)]), kinds=LOOP_EVENTS))


def role(p: Path, made: list[Made], attr: str) -> tuple[Made | None, Ev | None, T | None]:
    """(the variable whose id is kept for a purpose, where, the frame)"""
    kept = sets(p.events, attr)
    if not kept:
        return None, None, None
    v = plain(kept[-1].args[0])
    m = [x for x in made if x.id is v]
    return (m[-1] if m else None), kept[-1], plain(kept[-1].recv)


def of_frame(v: t.Any, sf: T, *names: str) -> bool:
    base, path = attr_path(plain(v)) if isinstance(v, T) else (None, [])
    want = attr_path(plain(sf))
    return base is want[0] and path == [*want[1], *names]


def c27(chk: Check) -> None:
    """An edited variable reaches the data the playbook uses."""
    f = chk.program.func(f"{STATE}.set_variable")
    paths = returns(slim(chk, f, pred=effect, names=("set", "template", "Templar", "SetVariableResponse", "copy_with_new_env"), kinds=(), pure=(TYPE_NAME,), pins=("isa",)))
    for p in paths:
        done = [e for e in p.events if e.kind == "call" and e.name == "set" and is_sub(e.recv, "variables") is not None]
        chk.must(len(done) == 1, "sets-the-variable", f, "setting a variable does not set exactly one variable once", p)
        for e in done:
            var = plain(e.recv)
            chk.must(is_field(is_sub(var, "variables"), "variables_reference"), "sets-the-variable", e, "what is set is not the variable the client named", p)
            chk.must(is_field(e.arg(0, "index"), "name"), "sets-the-variable", e, "the name set is not the one the client gave", p)
            frame = sub(var, "stackframe", "task_vars")
            src = plain(e.arg(1, "value") or NONE)
            asked = next((plain(x.args[0]) for x in calls(p.events, "template") if plain(x.res) is src and x.args), NONE)
            req = [x for x in walk_term(asked) if is_field(x, "value")]
            chk.must(bool(req) and any(templated(p, e.arg(1, "value"), r, frame) for r in req[:1]), "sets-templated", e, f"what is set is not the value the client gave, templated with the variables of the task: {show(src)[:80]}", p)
    chk.floor(len(paths), 2, "paths of set_variable")
    roles(chk)
    commands(chk)
    for c in variable_classes(chk):
        stores(chk, c, [shown_attr(chk, c)], "stores", number=not maps(chk, c))
    nested(chk)


def listings(chk: Check) -> list[Path]:
    f = chk.program.func(f"{STATE}.get_variables")
    return returns(slim(chk, f, pred=effect, names=("Variable", "append", "VariablesResponse", *[tail(c.qual) for c in variable_classes(chk)]), kinds=LOOP_EVENTS, pure=(TYPE_NAME,), pins=("isa",)))


def nested(chk: Check) -> None:
    """An element that is edited by expanding it is the element itself."""
    n = 0
    for p in listings(chk):
        for m in made_variables(chk, p):
            if m.cls is None:
                continue
            cls = class_named(chk, m.cls)
            shown = m.fields.get(shown_attr(chk, cls))
            if shown is not None and "asdict(" in show(shown):
                continue
            n += 1
            chk.must(shown is not None and is_element(shown), "nested-is-the-element", chk.program.func(f"{STATE}.get_variables"), f"the content of an expanded element is {show(shown)[:80]}, not the element itself", p)
    chk.floor(n, 2, "expanded elements")


def is_element(x: T) -> bool:
    """The value of one entry of what get lists."""
    x = plain(x)
    return x.k == "item" and x.a[1] is const(1) and plain(x.a[0]).k == "elem" and show(x.a[0]).rstrip(")").endswith(".get(")


def sub(x: T, *names: str) -> T:
    for n in names:
        x = mk("attr", plain(x), n)
    return x


def is_field(x: t.Any, name: str) -> bool:
    """A field of the request."""
    if not isinstance(x, T):
        return False
    base, path = attr_path(plain(x))
    return base.k == "param" and path == [name]


def maps(chk: Check, cls: t.Any) -> bool:
    """The kind of variable is for mappings: it has a count of named children."""
    m = method_of(chk, cls, "named_variables")
    return any(not (p.value.k == "const") for p in slim(chk, m, kinds=(), pred=effect))


def roles(chk: Check) -> None:
    """The scopes that can be edited are kept by the frame and write through to what they were made from."""
    n = 0
    f = chk.program.func(f"{STATE}.get_scopes")
    through: set[tuple[str, str, tuple[str, ...]]] = set()
    for p in scopes_paths(chk):
        made = made_variables(chk, p)
        for attr in ("variables_options_id", "variables_taskvar_id", "variables_hostvars_id"):
            m, e, sf = role(p, made, attr)
            chk.must(m is not None, "kept", f, f"{attr} of the frame is not the id of a variable that was made for the scope", p)
            if m is None or m.cls is None:
                continue
            n += 1
            chk.must(sf is not None and is_field(is_sub(sf, "stackframes"), "frame_id"), "kept", e, f"{attr} is kept for another frame than the one asked for", p)
            if any(is_op(k, "isa") and not v and sf is not None and of_frame(k.a[1], sf, "task_vars") for k, v in p.pc.items()):
                continue  # the variables of a task are a mapping
            cls = class_named(chk, m.cls)
            shown = m.fields.get(shown_attr(chk, cls))
            others = {a: v for a, v in m.fields.items() if a not in ("id", "stackframe")}
            chk.must(plain(m.fields.get("stackframe", NONE)) is sf, "kept", e, "the variable belongs to another frame", p)
            if attr == "variables_options_id":
                raw = [a for a, v in others.items() if of_frame(v, sf, "task", "args")]
                chk.must(bool(raw), "options-write-through", e, "the module options are not connected to the arguments of the task", p)
                through.add((attr, cls.qual, tuple(raw)))
                chk.must(shown is not None and any(of_frame(x, sf, "task", "args") for x in walk_term(shown)), "options-write-through", e, "the module options shown are not those of the task", p)
            elif attr == "variables_taskvar_id":
                chk.must(of_frame(shown, sf, "task_vars"), "task-vars", e, f"the task variables shown are {show(shown)[:60]}, not those the task uses", p)
                through.add((attr, cls.qual, ()))
            else:
                host = [a for a, v in others.items() if is_host_name(v, sf)]
                man = [a for a, v in others.items() if root(v).k == "param" and "manager" in show(v) or "mamanger" in show(v)]
                chk.must(len(host) == 1 and len(man) == 1, "hostvars-persist", e, "the host variables are not connected to the variables of that host in the inventory", p)
                if len(host) == 1 and len(man) == 1:
                    persists(chk, cls, host[0], man[0])
    for attr, q, raw in sorted(through):
        cls = class_named(chk, q)
        stores(chk, cls, [shown_attr(chk, cls), *raw], "options-write-through" if raw else "stores")
        if attr == "variables_options_id":
            removes(chk, cls, [shown_attr(chk, cls), *raw])
    chk.floor(n, 6, "scopes that can be edited")


def is_host_name(v: t.Any, sf: T) -> bool:
    v = plain(v)
    return v.k == "item" and v.a[1] is const("inventory_hostname") and of_frame(v.a[0], sf, "task_vars")


def persists(chk: Check, cls: t.Any, host: str, man: str) -> None:
    m = method_of(chk, cls, "set")
    for p in returns(slim(chk, m, kinds=(), pred=effect)):
        done = calls(p.events, "set_host_variable")
        chk.must(len(done) == 1, "hostvars-persist", m, "setting a host variable does not set it once for the host", p)
        for e in done:
            a, k, v = (e.arg(i, n) for i, n in enumerate(("host", "varname", "value")))
            good = own_attr(e.recv) == man and a is not None and own_attr(a) == host and k is not None and is_param(unver(k), m, 1) and v is not None and is_param(unver(v), m, 2)
            chk.must(good, "hostvars-persist", e, f"what is kept is not the value given, under the name given, for the host of the frame: {e!r}"[:160], p)


def removes(chk: Check, cls: t.Any, attrs: list[str]) -> None:
    """remove removes the name from all of the containers that have it."""
    m = method_of(chk, cls, "remove")
    for p in slim(chk, m, kinds=("raise",), pred=effect, names=("pop",), mode="none"):
        chk.must(p.flow == "ret", "removes", m, "an option is not removed", p)
        for a in attrs:
            done = [e for e in p.events if (e.kind == "delitem" or e.name in ("pop", "__delitem__")) and e.recv is not None and own_attr(e.recv) == a]
            absent = [k for k, v in p.pc.items() if is_op(k, "in") and not v and own_attr(k.a[2]) == a]
            chk.must(bool(done) != bool(absent), "removes", m, f"an option may stay in {a} of a {tail(cls.qual)}", p)
            for e in done:
                chk.must(is_param(unver(e.args[0]), m, 1), "removes", e, f"what is removed is {show(e.args[0])}", p)
                sure = len(e.args) > 1 or any(is_op(k, "in") and v and own_attr(k.a[2]) == a for k, v in p.pc.items()) or caught(e, "KeyError", "LookupError", "Exception")
                chk.must(sure, "removes", e, f"removing an option that is not in {a} fails", p)


def evaluations(chk: Check) -> list[Path]:
    f = chk.program.func(f"{STATE}.evaluate")
    return slim(chk, f, names=("parse_repl_args", "remove", "set", "EvaluateResponse", "Templar", "template"), kinds=("raise",) + LOOP_EVENTS, opaque=(PARSE,), pure=(TYPE_NAME,), pins=("isa", "eq", "truthy"))


def asked_frame(x: t.Any, attr: str) -> bool:
    """The id of a scope of the frame the line was entered for."""
    base, path = attr_path(plain(x)) if isinstance(x, T) else (NONE, [])
    return path == [attr] and is_field(is_sub(base, "stackframes"), "frame_id")


def commands(chk: Check) -> None:
    """What the commands that set and remove do."""
    f = chk.program.func(f"{STATE}.evaluate")
    n = 0
    for p in returns(evaluations(chk)):
        parsed = calls(p.events, "parse_repl_args")
        if not parsed:
            continue
        kinds = command_of(p, parsed[-1])
        r = plain(parsed[-1].res)
        setting, removing = ([e for e in p.events if e.kind == "call" and e.name == x and is_sub(e.recv, "variables") is not None] for x in ("set", "remove"))
        ids = [plain(is_sub(e.recv, "variables")) for e in setting]
        if kinds == {"SetVarCommand"}:
            n += 1
            option = is_set_option(p, r)
            want = ["variables_options_id"] if option else ["variables_taskvar_id", "variables_hostvars_id"]
            if option is None:
                raise AnalysisError("what distinguishes set_option from set_hostvar is not understood")
            for a in want:
                chk.must(len([i for i in ids if asked_frame(i, a)]) == 1, "command-sets", f, f"{'set_option' if option else 'set_hostvar'} does not set the variable in {a} of its frame", p)
            chk.must(len(ids) == len(want) and not removing, "command-sets", f, f"{'set_option' if option else 'set_hostvar'} also changes something else", p)
            for e in setting:
                chk.must(same(e.arg(0, "index"), sub(r, "name")), "command-sets", e, "the name set is not the one entered", p)
                frames = [x for x in walk_term(plain(e.recv)) if x.k == "item" and attr_path(x.a[0])[1][-1:] == ["stackframes"]]
                chk.must(bool(frames) and templated(p, e.arg(1, "value"), sub(r, "expression"), sub(frames[0], "task_vars")), "command-sets", e, "what is set is not the expression entered, templated with the variables of the task", p)
        elif kinds == {"RemoveVarCommand"}:
            n += 1
            gone = [e for e in removing if asked_frame(is_sub(e.recv, "variables"), "variables_options_id")]
            chk.must(len(gone) == 1 and len(removing) == 1 and not setting, "command-removes", f, "remove_option does not remove exactly the option of its frame", p)
            for e in gone:
                chk.must(same(e.arg(0, "index"), sub(r, "name")), "command-removes", e, "the name removed is not the one entered", p)
    chk.floor(n, 3, "paths of commands that change something")


def is_set_option(p: Path, r: T) -> bool | None:
    for k, v in p.pc.items():
        if is_op(k, "eq") and any(plain(x) is sub(r, "command") for x in k.a[1:]):
            c = next((x.a[0] for x in k.a[1:] if isinstance(x, T) and x.k == "const"), None)
            if c in ("set_option", "set_hostvar"):
                return (c == "set_option") is v
    return None


# --- C28 ---------------------------------------------------------------------
KINDS_OF = {
    "str": ("str", "Sequence", "Hashable"), "bool": ("bool", "int"), "int": ("int",), "float": ("float",), "tuple": ("tuple", "Sequence"),
    "dict": ("dict", "Mapping", "MutableMapping"), "list": ("list", "Sequence", "MutableSequence"), "?": (),
}


def isa_facts(pc: dict, x: T) -> dict[str, bool]:
    return {tail(str(k.a[2].a[0])): v for k, v in pc.items() if is_op(k, "isa") and plain(k.a[1]) is plain(x)}


def expandable(p: Path, x: T) -> str | None:
    """What an element is: a mapping, a sequence, a dataclass instance, nothing that has content, or not known."""
    f = isa_facts(p.pc, x)
    text = f.get("str")
    if f.get("Mapping") and not text:
        return "mapping"
    if f.get("Sequence") and text is False:
        return "sequence"
    data = None
    for k, v in p.pc.items():
        if is_op(k, "truthy") and "is_dataclass(" in show(k) and any(plain(y) is plain(x) for y in walk_term(k)):
            data = v
    if text or (f.get("Mapping") is False and f.get("Sequence") is False):
        if data is None:
            return "plain" if text else None
        if not data:
            return "plain"
        return {False: "dataclass", True: "plain", None: None}[f.get("type")]
    return None


def c28(chk: Check) -> None:
    """Variable listings are complete and can be expanded."""
    f = chk.program.func(f"{STATE}.get_variables")
    seen: dict[str, int] = {}
    for p in listings(chk):
        resp = [e for e in p.events if e.kind == "new" and e.name == "VariablesResponse"]
        chk.must(len(resp) == 1 and unver(p.value) is unver(resp[-1].res), "lists-all", f, "a request for variables is not answered with their list", p)
        if not resp:
            continue
        chk.must(is_field(resp[-1].arg(0, "request_seq"), "seq"), "lists-all", resp[-1], "the response is not for the request", p)
        if infeasible(p):
            continue
        what = resp[-1].arg(1, "variables")
        made = [e for e in p.events if e.kind == "new" and e.name == "Variable"]
        li = listing(p, what) if what is not None else None
        chk.must(li is not None and len(li[0]) == 1 and is_listing(li[0][0]), "lists-all", f, "the variables listed are not one for each entry of the variable asked for", p)
        if li is None or not li[1]:
            continue
        chk.must(len(made) == 1 and unver(li[1][0]) is made[0].res, "lists-all", f, "an entry of the variable is not listed exactly once", p)
        for e in made:
            seen_kind = entry(chk, p, e)
            seen[seen_kind] = seen.get(seen_kind, 0) + 1
    chk.floor(len([k for k in seen if k != "?"]), 4, "kinds of entries")
    kinds_listed(chk)
    names_of_types(chk)
    counts(chk)


def infeasible(p: Path) -> bool:
    """Facts that cannot all hold: a str that is a mapping, a class that is one."""
    for k in list(p.pc):
        if is_op(k, "isa"):
            f = isa_facts(p.pc, k.a[1])
            if "asdict(" in show(plain(k.a[1])).split("[")[0] and f.get("Mapping") is False:
                return True
            if f.get("str") and (f.get("Mapping") or f.get("Sequence") is False) or f.get("type") and (f.get("Mapping") or f.get("Sequence")):
                return True
            if f.get("HostVars") and (f.get("Mapping") is False or f.get("str") or f.get("Sequence")):
                return True
    return False


def is_listing(x: T) -> bool:
    """What the variable that the client asked for lists."""
    x = plain(x)
    if x.k == "call" or is_op(x, "call") or True:
        for y in walk_term(x):
            if y.k == "item" and is_field(is_sub(y, "variables"), "variables_reference"):
                return show(x) == show(y) + ".get()"
    return False


def entry(chk: Check, p: Path, e: Ev) -> str:
    a = {n: e.arg(i, n) for i, n in enumerate(("name", "value", "type"))}
    a |= {n: e.kwargs.get(n) for n in ("variables_reference", "named_variables", "indexed_variables")}
    # What is assigned to it afterwards counts.
    a |= {x.name: x.args[0] for x in p.events if x.kind == "setattr" and x.recv is not None and unver(x.recv) is e.res and x.name in a}
    name, typ, val = (plain(a[n]) if a[n] is not None else NONE for n in ("name", "type", "value"))
    chk.must(name.k == "item" and name.a[1] is const(0) and name.a[0].k == "elem", "entry", e, f"the name of an entry is {show(name)[:60]}, not its own", p)
    if not (name.k == "item" and name.a[0].k == "elem"):
        return "?"
    x = mk("item", name.a[0], const(1))
    chk.must(is_call(typ, "get_canonicalized_variable_type", x), "entry", e, f"the type of an entry is {show(typ)[:60]}, not that of its value", p)
    facts = isa_facts(p.pc, x)
    host_vars = facts.get("HostVars")
    rep = is_op(val, "fmt") and val.a[1] is x and "114" in [str(y) for y in val.a[2:]] + [show(y) for y in val.a[2:] if isinstance(y, T)] or is_op(val, "repr") and (val.a[1] is x or host_vars and same_content(p, e, x)) or is_call(val, "repr", x)
    chk.must(bool(rep), "entry", e, f"the value of an entry is {show(val)[:60]}, not the representation of its value", p)
    kind = expandable(p, x)
    ref, named, indexed = (plain(a[n]) if a[n] is not None else const(0) for n in ("variables_reference", "named_variables", "indexed_variables"))
    made = made_variables(chk, p)
    child = next((m for m in made if m.id is not None and m.id is ref), None)
    if kind in ("mapping", "sequence", "dataclass"):
        chk.must(child is not None and len(made) == 1, "expands", e, f"an entry that is a {kind} cannot be expanded", p)
        if child is None or child.cls is None:
            return kind
        cls = class_named(chk, child.cls)
        shown = child.fields.get(shown_attr(chk, cls), NONE)
        right = shown is x if kind != "dataclass" else is_call(shown, "asdict", x)
        chk.must(right, "expands", e, f"expanding a {kind} shows {show(shown)[:60]}, not its content", p)
        chk.must(maps(chk, cls) == (kind != "sequence"), "expands", e, f"a {kind} is shown as a {tail(cls.qual)}", p)
        count = named if maps(chk, cls) else indexed
        other = indexed if maps(chk, cls) else named
        chk.must(is_op(count, "len") and count.a[1] is shown and other is const(0), "counts", e, f"the counts of a {kind} are {show(named)[:40]} named and {show(indexed)[:40]} indexed", p)
        fr = child.fields.get("stackframe", NONE)
        chk.must(is_attr(fr, "stackframe") and any(is_field(is_sub(y, "variables"), "variables_reference") for y in walk_term(fr)), "expands", e, "the content belongs to another frame than the entry", p)
        kept = [y for y in p.events if y.kind == "call" and y.name in ("append", "add") and y.recv is not None and attr_path(y.recv)[1][-1:] == ["variables"] and plain(y.args[0]) is ref]
        chk.must(bool(kept), "expands", e, "the content is not kept with the frame", p)
    elif kind == "plain":
        chk.must(not made and ref is const(0) and named is const(0) and indexed is const(0), "expands", e, "an entry without content has a reference", p)
    else:
        # Which of them it is was not looked at, so it cannot be right for all of them.
        chk.must(False, "expands", e, "whether an entry can be expanded does not depend on it being a mapping, a sequence that is no text or a dataclass instance", p)
    return kind or "?"


def parts_of(p: Path, x: T) -> list[T]:
    """The value, and what it is put together from when it is written out."""
    c = p.state.cont.get(unver(x))
    return [x] + [y for i in (c[1] if c is not None else ()) for y in (i if isinstance(i, tuple) else (i,)) if isinstance(y, T)]


def is_attr(x: T, name: str) -> bool:
    return attr_path(x)[1][-1:] == [name]


def is_call(x: t.Any, fn: str, arg: T) -> bool:
    """fn(arg), without other arguments that change the result."""
    x = plain(x)
    if is_op(x, fn):
        return x.a[1] is arg
    return isinstance(x, T) and show(x) in (f"{fn}({show(arg)})", f"dataclasses.{fn}({show(arg)})") or isinstance(x, T) and x.k in ("call", "op") and f"{fn}(" in show(x).split(show(arg))[0] and any(y is arg for y in walk_term(x)) and show(x).rstrip(")").endswith(show(arg).rstrip(")"))


def same_content(p: Path, e: Ev, x: T) -> bool:
    """The representation of the variables of all hosts is made from all of them."""
    v = unver(e.arg(1, "value"))
    d = unver(v.a[1])
    if d.k == "comp":
        return not d.a[3] and len(d.a[2]) == 1 and any(y is x for y in walk_term(plain(d.a[2][0])))
    if is_op(d, "dict") and any(y is x for y in walk_term(plain(d))):
        return True
    zero = [y for y in p.events if y.kind in ("loop", "loopzero") and y.recv is not None and any(z is x for z in walk_term(plain(y.recv)))]
    if not zero or any(broken(p, y) for y in zero):
        return False
    if zero[-1].kind == "loopzero":
        return True
    adds = [y for y in p.events if y.kind == "setitem" and unver(y.recv) is d and any(z is x for z in walk_term(plain(y.args[1])))]
    return len(adds) == 1


def kinds_listed(chk: Check) -> None:
    """get lists every element of what is shown with its own name."""
    for c in variable_classes(chk):
        m = method_of(chk, c, "get")
        attr = shown_attr(chk, c)
        for p in slim(chk, m, kinds=(*LOOP_EVENTS, "yield"), pred=effect, names=("append",)):
            chk.must(lists_own(p, attr, maps(chk, c)), "get", m, f"a {tail(c.qual)} does not list every element with its name and value: {show(p.value)[:100]}", p)
        for prop, on in (("named_variables", maps(chk, c)), ("indexed_variables", not maps(chk, c))):
            q = method_of(chk, c, prop)
            for p in slim(chk, q, kinds=(), pred=effect):
                v = plain(p.value)
                good = is_op(v, "len") and own_attr(v.a[1]) == attr if on else v is const(0)
                chk.must(good, "counts", q, f"{prop} of a {tail(c.qual)} is {show(v)}", p)


def lists_own(p: Path, attr: str, mapping: bool) -> bool:
    yields = [e for e in p.events if e.kind == "yield"]
    loops = [e for e in p.events if e.kind == "loop"]
    if yields:
        return len(yields) == len(loops) == 1 and yields[0].loops == loops[0].loops and not broken(p, loops[0]) and own_pair(plain(yields[0].args[0]), plain(loops[0].recv), attr, mapping)
    if own_yields(p):
        # Nothing is listed if there is nothing.
        return not loops and any(e.kind == "loopzero" for e in p.events)
    v = unver(p.value)
    while is_op(v, "iter", "list", "tuple") or v.k == "call" and show(v).startswith(("iter(", "list(", "tuple(")):
        v = unver(v.a[1])
    if v.k == "comp":
        return not v.a[3] and len(v.a[2]) == 1 and own_pair(plain(v.a[1]), plain(v.a[2][0]), attr, mapping)
    li = listing(p, v)
    if li is None or len(li[0]) != 1:
        return False
    if not li[1]:
        return any(own_attr(y) == attr for y in walk_term(plain(li[0][0])))
    lp = [x for x in p.events if x.kind == "loop" and x.loops == li[2][0].loops]
    return bool(lp) and own_pair(plain(li[1][0]), plain(lp[-1].recv), attr, mapping)


def own_yields(p: Path) -> bool:
    f = next((e.func for e in p.events if e.kind == "enter" and hasattr(e.func, "node")), None)
    return f is not None and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node))


def own_pair(pair: T, over: T, attr: str, mapping: bool) -> bool:
    """The name and value of an element of what the variable shows."""
    if pair.k != "tuple" and not is_op(pair, "tuple"):
        return False
    k, x = [y for y in pair.a if isinstance(y, T)][:2]
    own = [y for y in walk_term(over) if own_attr(y) == attr]
    if not own or not is_op(k, "str") and not show(k).startswith("str("):
        return False
    d = own[0]
    key = plain(k.a[1])
    if mapping:
        return elem_of(key, d) and x.k == "item" and plain(x.a[0]) is d and x.a[1] is key
    return key.k == "elem_idx" and plain(key.a[0]) is d and elem_of(x, d)


def names_of_types(chk: Check) -> None:
    """The name of the type of a value."""
    f = chk.program.func(TYPE_NAME)
    paths = slim(chk, f, kinds=("raise",))
    for name, isa in KINDS_OF.items():
        n = 0
        for p in paths:
            x = next((k.a[1] for k in p.pc if is_op(k, "isa")), None)
            facts = isa_facts(p.pc, x) if x is not None else {}
            if any((k in isa) is not v for k, v in facts.items() if k in {y for z in KINDS_OF.values() for y in z}):
                continue
            n += 1
            v = plain(p.value)
            good = v is const(name) if name != "?" else "__name__" in names_in(v) or show(v).endswith("__name__")
            chk.must(p.flow == "ret" and good, "type-names", f, f"the type of a {name if name != '?' else 'value of another type'} is given as {show(v)}", p)
        chk.must(n > 0, "type-names", f, f"no type is given for a {name}")


def counts(chk: Check) -> None:
    """The scopes refer to variables that exist, with their counts."""
    f = chk.program.func(f"{STATE}.get_scopes")
    n = 0
    for p in scopes_paths(chk):
        made = made_variables(chk, p)
        scopes = [e for e in p.events if e.kind == "new" and e.name == "Scope"]
        resp = [e for e in p.events if e.kind == "new" and e.name == "ScopesResponse"]
        chk.must(len(resp) == 1 and is_field(resp[-1].arg(0, "request_seq"), "seq"), "scopes", f, "a request for scopes is not answered", p)
        if not resp:
            continue
        res = obj(resp[-1], 1, "scopes")
        listed = [getattr(x, "term", x) for x in res.fields] if isinstance(res, Obj) and res.kind == "list" else []
        chk.must(len(listed) == len(scopes) and {e.res for e in scopes} == set(listed), "scopes", f, "a scope is not listed exactly once", p)
        for e in scopes:
            n += 1
            ref, named, indexed = (plain(e.arg(i, x) or const(0)) for i, x in ((1, "variables_reference"), (99, "named_variables"), (99, "indexed_variables")))
            m = next((m for m in made if m.id is ref), None)
            if m is None or m.cls is None:
                if is_attr(ref, "id"):
                    ref = is_sub(ref.a[0], "variables") or ref
                good = is_attr(ref, "variables_result_id") and is_attr(named, "named_variables") and is_attr(indexed, "indexed_variables") and all(is_sub(plain(x.a[0]), "variables") is ref for x in (named, indexed))
                chk.must(good, "scopes", e, f"a scope refers to {show(ref)[:60]} with {show(named)[:40]} named and {show(indexed)[:40]} indexed", p)
                continue
            cls = class_named(chk, m.cls)
            shown = m.fields.get(shown_attr(chk, cls), NONE)
            count, other = (named, indexed) if maps(chk, cls) else (indexed, named)
            chk.must(is_op(count, "len") and plain(count.a[1]) is shown and other is const(0), "counts", e, f"the counts of a scope are {show(named)[:40]} named and {show(indexed)[:40]} indexed", p)
        with_result = [e for e in scopes if "variables_result_id" in show(e.arg(1, "variables_reference"))]
        known = [v if is_op(k, "truthy") else not v for k, v in p.pc.items() if is_op(k, "truthy", "eq", "isnone") and any(is_attr(plain(x), "variables_result_id") for x in k.a[1:])]
        known += [v if is_op(x, "truthy") else not v for k, v in p.pc.items() if is_op(k, "lt") and v for x in [mk("op", "truthy", k.a[2])] if is_attr(plain(k.a[2]), "variables_result_id")]
        if True:
            chk.must(bool(known) and bool(with_result) is known[-1], "scopes", f, "the result of the task is not listed exactly when there is one", p)
        for want in ("task", "task_vars", "hostvars", "vars"):
            chk.must(any(want in names_in(x) or want in show(x) for m in made if m.cls for x in parts_of(p, m.fields.get(shown_attr(chk, class_named(chk, m.cls)), NONE))), "scopes", f, f"there is no scope for {want}", p)
    chk.floor(n, 8, "scopes")


# --- C29 ---------------------------------------------------------------------
WORDS = {"remove_option": "ro", "set_option": "so", "set_hostvar": "sh", "template": "t"}
CLASS_OF = {"remove_option": "RemoveVarCommand", "set_option": "SetVarCommand", "set_hostvar": "SetVarCommand", "template": "TemplateCommand"}
CONTEXTS = ("repl", "watch", "clipboard", "variables")


def c29(chk: Check) -> None:
    """Debug console commands do what they say and only with a frame."""
    parser(chk)
    lines(chk)
    commands(chk)


def lines(chk: Check) -> None:
    """What is done with a line that is to be evaluated."""
    f = chk.program.func(f"{STATE}.evaluate")
    kinds: dict[str, int] = {}
    for p in evaluations(chk):
        if p.flow != "ret":
            continue
        resp = [e for e in p.events if e.kind == "new" and e.name == "EvaluateResponse"]
        chk.must(len(resp) == 1 and unver(p.value) is resp[-1].res and is_field(resp[-1].arg(0, "request_seq"), "seq"), "answers", f, "a line is not answered with one response", p)
        if not resp:
            continue
        result, typ = (plain(resp[-1].arg(i, n) or NONE) for i, n in ((1, "result"), (2, "type")))
        parsed = calls(p.events, "parse_repl_args")
        changed = [e for e in p.events if e.kind == "call" and e.name in ("set", "remove") and is_sub(e.recv, "variables") is not None]
        frame = any_fact(p, lambda k: is_op(k, "truthy") and is_field(k.a[1], "frame_id"))
        repl = context(p)
        bang = any_fact(p, lambda k: "startswith" in show(k) and "'!'" in show(k) or is_op(k, "eq") and const("!") in k.a[1:] and "expression" in show(k))
        if parsed:
            chk.must(len(parsed) == 1 and bang is True and frame is True and repl == {"repl"}, "commands-only", f, "a line is taken as a command although it is none: it has to start with !, be from the console and have a frame", p)
            a = plain(parsed[0].arg(0, "args") or NONE)
            chk.must(rest_of_line(a), "command-text", parsed[0], f"what is parsed is {show(a)}, not the line after the !", p)
            r = plain(parsed[0].res)
            which = command_of(p, parsed[0])
            if len(which) != 1:
                chk.must(not changed, "no-command", f, "something is changed without knowing which command it is", p)
                continue
            kind = next(iter(which))
            kinds[kind] = kinds.get(kind, 0) + 1
            if kind == "TemplateCommand":
                chk.must(not changed, "no-command", f, "the template command changes something", p)
                evaluated(chk, p, f, sub(r, "expression"), result, typ)
            elif kind == "str":
                chk.must(not changed, "no-command", f, "a line that is no command changes something", p)
                chk.must(result is r or is_call(result, "str", r) or is_op(result, "fmt") and result.a[1] is r, "no-command", f, f"the answer to a line that is no command is {show(result)[:60]}, not the message of the parser", p)
            continue
        chk.must(not changed, "no-command", f, "a line that is no command changes something", p)
        if bang is True and repl == {"repl"} and frame is True:
            chk.must(False, "commands-only", f, "a command is not parsed", p)
        elif frame is not False and repl and repl <= set(CONTEXTS):
            chk.must(frame is True, "frame-needed", f, "an expression is evaluated without a frame", p)
            kinds["expression"] = kinds.get("expression", 0) + 1
            evaluated(chk, p, f, None, result, typ)
        else:
            kinds["none"] = kinds.get("none", 0) + 1
            chk.must(not calls(p.events, "template"), "frame-needed", f, "an expression is evaluated without a frame or for an unknown context", p)
            known = frame is False or repl is None or not repl & set(CONTEXTS)
            chk.must(known, "expressions", f, "an expression with a frame is not evaluated", p)
    for k in ("TemplateCommand", "SetVarCommand", "RemoveVarCommand", "str", "expression", "none"):
        chk.must(kinds.get(k, 0) > 0, "handled", f, f"there is no handling of {k}")
    # An expression that fails is answered as well.
    for p in slim(chk, f, names=("template", "EvaluateResponse"), kinds=("raise",), opaque=(PARSE,), pure=(TYPE_NAME,), mode="try"):
        failed = [e for e in calls(p.events, "template", raised=True)]
        if failed and p.flow == "raise":
            chk.must(False, "failure-is-answered", failed[-1], "an expression that cannot be evaluated ends the request", p)
    g = [e for p in evaluations(chk) for e in calls(p.events, "template") if not [x for x in p.events if x.kind == "call" and x.name == "set"]]
    for e in {(id(e.node), tuple(e.stack)): e for e in g}.values():
        chk.must(caught_above(chk, f, e), "failure-is-answered", e, "an expression that cannot be evaluated ends the request")


def caught_above(chk: Check, f: FuncInfo, e: Ev) -> bool:
    """The failure of the call is handled there or in a function on the way to it."""
    if caught(e, "Exception", "BaseException"):
        return True
    stack = [q for q in e.stack if isinstance(q, str)]
    stack += [] if stack and stack[-1] == e.func.qual else [e.func.qual]
    for q, nxt in zip(stack, stack[1:]):
        fn = chk.program.find_func(q)
        nodes = [n for n in ast.walk(fn.node) if isinstance(n, ast.Call) and is_call_of(tail(nxt))(n)] if fn is not None else []
        if nodes and all(in_try(fn.node, n, ("Exception", "BaseException")) for n in nodes):
            return True
    return False


def in_try(f: ast.AST, node: ast.AST, names: tuple[str, ...]) -> bool:
    for n in ast.walk(f):
        if isinstance(n, ast.Try) and any(x is node for s in n.body for x in ast.walk(s)):
            if any(h.type is None or {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} & set(names) for h in n.handlers):
                return True
    return False


def any_fact(p: Path, pred: t.Callable[[T], bool]) -> bool | None:
    res = None
    for k, v in p.pc.items():
        if pred(plain(k)):
            res = v
    return res


def context(p: Path) -> set[str] | None:
    """The contexts the request may be for; None when it is not one of those that are known."""
    left = {*CONTEXTS, "?"}
    seen = False
    for k, v in p.pc.items():
        if is_op(k, "eq") and any(is_field(x, "context") for x in k.a[1:]):
            c = next((x.a[0] for x in k.a[1:] if isinstance(x, T) and x.k == "const"), None)
            if isinstance(c, str):
                seen = True
                left = left & {c if c in CONTEXTS else "?"} if v else left - {c}
    return left if seen and left != {"?"} else None


def rest_of_line(a: T) -> bool:
    """The line without the leading !"""
    text = show(a)
    if a.k == "slice" or is_op(a, "slice"):
        xs = [x for x in a.a if isinstance(x, T)]
        return is_field(xs[0], "expression") and const(1) in xs and all(x in (const(1), NONE) for x in xs[1:])
    return text.endswith("removeprefix('!')") or text == "(request.expression removeprefix '!')" or text.startswith("removeprefix(") and "'!'" in text


def evaluated(chk: Check, p: Path, f: FuncInfo, expr: T | None, result: T, typ: T) -> None:
    """The result is that of the expression, with the variables of the task the frame is of."""
    done = calls(p.events, "template")
    v = plain(done[-1].res) if done else NONE
    shown = is_op(result, "repr") and plain(result.a[1]) is v or is_op(result, "fmt") and plain(result.a[1]) is v
    if not shown:
        # Or what is told about its failure.
        chk.must("exc(" in show(result) or "format_exc" in show(result), "expressions", f, f"the answer is {show(result)[:60]}, not the value of the expression", p)
        return
    made = [x for x in p.events if x.kind == "new" and "Templar" in x.name]
    tv = plain(made[-1].arg(1, "variables") or NONE) if made else NONE
    base, path = attr_path(tv)
    chk.must(path == ["task_vars"] and is_field(is_sub(base, "stackframes"), "frame_id"), "expressions", f, f"an expression is evaluated with {show(tv)[:60]}, not the variables of its frame", p)
    if expr is None:
        src = [x for x in walk_term(plain(done[-1].args[0])) if is_field(x, "expression")]
        expr = src[0] if src else None
    chk.must(expr is not None and expression_of(plain(done[-1].args[0]), plain(expr)), "expressions", f, f"what is evaluated is {show(done[-1].args[0])[:60]}, not the expression entered", p)
    chk.must(is_call(typ, "get_canonicalized_variable_type", v), "expressions", f, f"the type of the result is {show(typ)[:60]}", p)


def parser(chk: Check) -> None:
    """A line is parsed into the command it names, with the rest of it as it was entered."""
    f = chk.program.func(PARSE)
    names = ("add_parser", "add_argument", "add_subparsers", "parse_known_args", "parse_args", "split", "get_token", "read", "shlex", *set(CLASS_OF.values()))
    paths = slim(chk, f, names=names, attrs=("whitespace_split", "commenters", "posix"), kinds=("raise", "new"), mode="try", pins=("eq", "in"))
    words = declared(chk, f, paths)
    seen: set[str] = set()
    whole: set[str] = set()
    short: dict[str, tuple[Ev, T]] = {}
    for p in paths:
        failed = [e for e in p.events if e.kind == "call" and e.raised]
        if failed:
            # That the failures are caught is decided below: other exceptions are not theirs.
            chk.must(p.flow == "raise" or any(x.k == "exc" for x in walk_term(p.value)), "parser-message", failed[-1], "the message of the parser is not returned", p)
            continue
        if p.flow != "ret":
            chk.must(False, "parser-message", f, "a line that does not parse ends the request", p)
            continue
        parse = calls(p.events, "parse_known_args", "parse_args")
        if not parse:
            continue
        made = [e for e in p.events if e.kind == "new" and e.name in CLASS_OF.values() and e.res is unver(p.value)]
        for w in words:
            if not consistent(p, w, parse[-1]):
                continue
            seen.add(w)
            final = next(n for n, a in WORDS.items() if w in (n, a))
            chk.must(len(made) == 1 and made[0].name == CLASS_OF[final], "command-of-word", f, f"the command {w} gives {show(p.value)[:60]}", p)
            for e in made:
                if e.name != CLASS_OF[final]:
                    continue
                args = init_args(chk, e)
                c = plain(args.get("command", NONE))
                if final.startswith("set_"):
                    chk.must(c is const(final) or is_parsed(c, parse[-1], "command") and w == final, "command-of-word", e, f"{w} is taken as {show(c)[:60]}", p)
                if "name" in args:
                    chk.must(is_parsed(plain(args["name"]), parse[-1], "name"), "name-parsed", e, f"the name is {show(args['name'])[:60]}", p)
                if "expression" in args:
                    # Where the line ends before its words, there is nothing left to take.
                    ended = any(is_op(k, "isnone") and v and "get_token()" in show(k) for k, v in p.pc.items())
                    if ended and not verbatim(p, args["expression"], final.startswith("set_")):
                        short[w] = e, args["expression"]
                        continue
                    whole.add(w)
                    chk.must(verbatim(p, args["expression"], final.startswith("set_")), "verbatim", e, f"the expression of {w} is {show(args['expression'])[:90]}, not the rest of the line as it was entered", p)
    for w, (e, x) in short.items():
        chk.must(w in whole, "verbatim", e, f"the expression of {w} is {show(x)[:90]}, which is only taken at the end of the line")
    for n, a in WORDS.items():
        for w in (n, a):
            chk.must(w in words and w in seen, "command-of-word", f, f"there is no command {w}")
    errors(chk, f, paths)


def init_args(chk: Check, e: Ev) -> dict[str, T]:
    fields = {"TemplateCommand": ["command", "expression"], "RemoveVarCommand": ["command", "name"], "SetVarCommand": ["command", "name", "expression"]}[e.name]
    return {n: v for i, n in enumerate(fields) if (v := e.arg(i, n)) is not None}


def is_parsed(x: T, parse: Ev, name: str) -> bool:
    """An argument the parser found."""
    x = plain(x)
    while is_op(x, "str"):
        x = plain(x.a[1])
    return x.k == "attr" and x.a[1] == name and any(y is plain(parse.res) for y in walk_term(x))


def consistent(p: Path, word: str, parse: Ev) -> bool:
    """The path is one of those for a word."""
    for k, v in p.pc.items():
        if is_op(k, "eq"):
            a, b = (word if is_parsed(x, parse, "command") else x.a[0] if isinstance(x, T) and x.k == "const" else None for x in k.a[1:])
            if a is not None and b is not None and (a == b) is not v:
                return False
        elif is_op(k, "in") and is_parsed(k.a[1], parse, "command"):
            c = [x.a[0] for x in walk_term(k.a[2]) if x.k == "const"]
            if c and (word in c) is not v:
                return False
    return True


def declared(chk: Check, f: FuncInfo, paths: list[Path]) -> set[str]:
    """The words the parser takes, each with the arguments it should have."""
    words: set[str] = set()
    for p in paths:
        parse = calls(p.events, "parse_known_args", "parse_args")
        if not parse:
            continue
        adds = calls(p.events, "add_parser")
        here: set[str] = set()
        for e in adds:
            n = e.arg(0, "name")
            n = n.a[0] if n is not None and n.k == "const" else None
            al = obj(e, None, "aliases")
            here.add(n)
            other = {x.a[0] for x in (al.fields if isinstance(al, Obj) else al.a if isinstance(al, T) and al.k == "tuple" else []) for x in [getattr(x, "term", x)] if x.k == "const"}
            here |= other
            final = n if n in WORDS else None
            chk.must(final is not None and other <= {WORDS[final]}, "words", e, f"the parser takes {n} with {sorted(other)}", p)
            pos = [a for a in calls(p.events, "add_argument") if a.recv is not None and unver(a.recv) is e.res]
            want = ["name"] if final != "template" else []
            got = [str(a.arg(0, "dest").a[0]) for a in pos if a.arg(0, "dest") is not None and a.arg(0, "dest").k == "const"]
            chk.must(got == want and all(not set(a.kwargs) - {"help", "metavar"} for a in pos), "words", e, f"the arguments of {n} are {got}", p)
        dest = [e.arg(99, "dest") for e in calls(p.events, "add_subparsers")]
        chk.must(dest == [const("command")], "words", f, "the command is not kept by the parser", p)
        words = here if not words else words & here
        chk.must(parse[-1].name == "parse_known_args" and "args" in show(parse[-1].arg(0, "args")), "words", parse[-1], "the expression is parsed as arguments", p)
    if not words:
        raise AnalysisError("anchor vanished: the words of the debug console")
    return words


def verbatim(p: Path, x: T, with_name: bool) -> bool:
    """The rest of the line after the words, only without the spaces before it."""
    x = unver(x)
    after: set[str] = set()
    while True:
        x = unver(x)
        if is_op(x, "lstrip") and len([y for y in x.a[1:] if isinstance(y, T)]) == 1:
            x = x.a[1]
        elif x.k == "call" and show(x).endswith(".lstrip()"):
            x = next(y for y in x.a if isinstance(y, T))
        elif x.k == "slice":
            if isinstance(x.a[2], T) and x.a[2] is not NONE:
                return False
            after |= names_in(x.a[1])
            x = x.a[0]
        elif is_op(x, "cond"):
            return all(verbatim(p, y, with_name) for y in x.a[2:])
        else:
            break
    if x.k == "param":
        return "command" in after and (not with_name or "name" in after)
    if not show(x).endswith(".read()"):
        return False
    lex = [e for e in p.events if e.kind == "call" and e.name == "shlex" and any(y is e.res for y in walk_term(x))]
    if len(lex) != 1 or lex[0].args[0].k != "param" or TRUE not in [*lex[0].args, *lex[0].kwargs.values()]:
        return False
    opts = {e.name: e.args[0] for e in sets(p.events) if e.recv is not None and unver(e.recv) is lex[0].res}
    if opts.get("whitespace_split") is not TRUE or opts.get("commenters") not in (const(""), NONE):
        return False
    read = [k for k in p.pc if is_op(k, "eq") and "get_token()" in show(k)]
    for w in ("command", "name") if with_name else ("command",):
        if not any(w in names_in(k) for k in read):
            return False
    return True


def errors(chk: Check, f: FuncInfo, paths: list[Path]) -> None:
    """Failures of the parser are messages."""
    done: dict[int, Ev] = {id(e.node): e for p in paths for e in calls(p.events, "parse_known_args", "parse_args", "split")}
    parsers = {e.callee for p in paths for e in p.events if e.kind == "new" and "arser" in e.name}
    raised: set[str] = set()
    for q in parsers:
        ends = {}
        for n in ("error", "print_help", "exit"):
            m = chk.program.find_method(q, n)
            if m is None:
                continue
            ps = slim(chk, m, kinds=("raise",), names=("format_help",))
            ends[n] = all(p.flow == "raise" for p in ps)
            for p in ps:
                if p.flow == "raise":
                    raised.add(tail(str(p.exc)) if not isinstance(p.exc, T) else tail(show(p.exc).split("(")[0].split("#")[0]))
                    r = [e for e in p.events if e.kind == "raise"]
                    said = show(r[-1].args) + show(r[-1].res) + repr(r[-1]) if r else ""
        chk.must(ends.get("error", False) or ends.get("exit", False), "parser-message", f, "a line that does not parse ends the process")
        chk.must(ends.get("print_help", False) or ends.get("exit", False), "parser-message", f, "asking for help ends the process")
    for e in done.values():
        if e.name == "split":
            chk.must(tail(e.callee) != "split" or "shlex" not in e.callee or caught(e, "ValueError", "Exception"), "parser-message", e, "a line with unbalanced quotes ends the request")
        else:
            chk.must(caught(e, "Exception", *raised), "parser-message", e, "a line that does not parse ends the request")
    chk.floor(len(done), 1, "parses of a line")
