"""The playbook is left as it is and Ansible evaluates what is entered: C45, C46."""

from __future__ import annotations

from ..calls import MUTATORS
from ..program import AnalysisError
from ..report import Check
from ._util import *
from .adapter import SELF
from .looking import PARSE, TYPE_NAME, evaluated, evaluations, is_field, templated
from .stops import check_condition, climbers
from .strategy import DBG, DEBUG_CALLS, MODULE, OPAQUE_STATE, REGISTER, STATE, ansible_calls, debug_calls, passed_on, same

CB_CLASS = f"{CALLBACK}.CallbackModule"
REGISTER_PLAYS = f"{PU}._breakpoints.register_play_breakpoints"

# --- C45 -------------------------------------------------------------------------------------------------------------
CHANGES = frozenset(MUTATORS) | {"setattr", "delattr", "__setitem__", "__delitem__", "__setattr__", "shuffle", "notify", "post_validate", "squash", "combine_vars", "preprocess_data", "evaluate_tags", "copy_from"}
CHANGING = ("set_", "_set_", "add_", "_add_", "clear_", "_clear_", "update_", "_update_", "remove_", "_remove_", "reset_", "_reset_", "mark_", "_mark_", "load_", "send_", "push_", "_extend", "_get_next", "get_next", "increment", "cleanup", "terminate", "restart_", "run_handlers", "_copy_included", "_prepare", "_initialize", "rescue_")
OWNED = ("task", "task_vars", "host", "_stopped_task", "_variable_manager", "_loader", "_inventory", "_tqm", "_play_context", "_iterator", "_task", "_host", "_result", "_blocked_hosts", "_results")


def strategy_functions(chk: Check) -> list[tuple[t.Any, tuple[str, ...]]]:
    """The functions the playbook's own thread runs and what is left to a walk of its own."""
    p = chk.program
    res: list[tuple[t.Any, tuple[str, ...]]] = [(f, OPAQUE_STATE) for f in p.cls(MODULE).methods.values() if f.name != "__init__"]
    res += [(p.func(f"{STATE}.{n}"), (REGISTER,)) for n in DEBUG_CALLS]
    res += [(p.func(REGISTER), (f"{DBG}.register_path_breakpoint",)), (p.func(REGISTER_PLAYS), (REGISTER,))]
    res += [(f, (REGISTER, REGISTER_PLAYS)) for f in p.cls(CB_CLASS).methods.values() if f.name.startswith("v2_")]
    return res


SAME = ("get", "setdefault", "pop", "popitem", "getattr", "iter", "next", "zip", "enumerate", "reversed", "filter", "values", "items", "keys", "or", "and", "ifexp", "ite", "either")


def of_ansible(chk: Check, f: t.Any, x: t.Any, deep: bool = False) -> bool:
    """An object that belongs to the playbook, not a copy of one."""
    x = plain(x) if isinstance(x, T) else None
    if x is None:
        return False
    if x.k == "param":
        return str(x.a[0]) in [a.arg for a in f.node.args.args + f.node.args.kwonlyargs] + [a.arg for a in (f.node.args.vararg, f.node.args.kwarg) if a] and str(x.a[0]) not in ("self", "debugger")
    if x.k == "attr":
        return x.a[1] in OWNED or of_ansible(chk, f, x.a[0], True)
    if x.k in ("item", "ver", "star", "elem"):
        return of_ansible(chk, f, x.a[0], deep or x.k in ("item", "elem"))
    if x.k == "op" and x.a[0] in SAME:
        return any(of_ansible(chk, f, y, deep) for y in x.a[1:] if isinstance(y, T))
    if x.k == "call":
        # What a call returns was made for it, unless it is a part of something that is reached.
        callee, recv = x.a[0], x.a[1]
        if callee.startswith("ansible.") and (recv is None or "super" in show(recv) or plain(recv) is SELF):
            return True
        return deep and isinstance(recv, T) and of_ansible(chk, f, recv, True)
    return False


def c45(chk: Check) -> None:
    """With no stop, edit or request to end, the playbook gets from the debugger what it gets without it."""
    p_ = chk.program
    cls = p_.cls(MODULE)
    n = over = 0
    for f in cls.methods.values():
        if f.name == "__init__":
            continue
        q = f.qual
        mine = [p for p in slim(chk, f, names=(f.name, *DEBUG_CALLS, "register_block_breakpoints"), mode="try" if f.name == "run" else "none", opaque=OPAQUE_STATE)]
        if not any(ansible_calls(p, f.name) for p in mine) and not overrides(f):
            continue
        over += 1
        for p in mine:
            sup = ansible_calls(p, f.name)
            if p.flow == "raise" or any(e.raised and e in debug_calls(p, *DEBUG_CALLS) for e in p.events):
                continue
            if f.name == "run" and any(e.raised for e in p.events):
                continue
            n += 1
            if not chk.must(len(sup) == 1, "ansible-runs-it", q, f"Ansible's own {f.name} is called once", p):
                continue
            chk.must(passed_on(chk, sup[0], q), "as-it-was-asked", sup[0], f"Ansible's own {f.name} is called with what Ansible passed", p)
            chk.must(unver(p.value) is unver(sup[0].res), "as-it-was-answered", sup[0], f"what Ansible's own {f.name} returns is returned", p)
    chk.floor(over, 5, "methods of Ansible's strategy that are overridden")
    chk.floor(n, 6, "ways through the overridden methods")
    events = 0
    for f, opaque in strategy_functions(chk):
        fn = p_.func(f) if isinstance(f, str) else f
        seen: set[tuple[str, int, str]] = set()
        for p in slim(chk, fn, pred=is_change, kinds=(), opaque=opaque, mode="none"):
            for e in p.events:
                if not is_change(e):
                    continue
                target = e.recv if e.recv is not None else e.args[0] if e.args else None
                key = (e.func.qual, getattr(e.node, "lineno", 0), show(target) if target is not None else "")
                if key in seen:
                    continue
                seen.add(key)
                events += 1
                own = e.kind in ("call", "enter") and e.recv is not None and passed_to_ansible(e, fn)
                chk.must(own or target is None or not of_ansible(chk, fn, target), "left-alone", e, f"{fn.name} does {what(e)} on {show(plain(target))[:80] if target is not None else '?'}", p)
    chk.floor(events, 15, "things the debugger changes while a playbook runs")


def overrides(f: t.Any) -> bool:
    return f.name in ("run", "_queue_task", "_execute_meta", "_process_pending_results", "_load_included_file")


def is_change(e: Ev) -> bool:
    if e.kind in ("setattr", "delattr", "setitem", "delitem", "inplace"):
        return True
    return e.kind in ("call", "enter") and (e.name in CHANGES or e.name.startswith(CHANGING))


def passed_to_ansible(e: Ev, f: t.Any) -> bool:
    """The call of Ansible's own method the override is of."""
    return e.name == f.name and e.callee.startswith("ansible.")


def what(e: Ev) -> str:
    return {"setattr": f"an assignment of .{e.name}", "delattr": f"a removal of .{e.name}", "setitem": "an item assignment", "delitem": "an item removal", "inplace": "an in place " + e.name}.get(e.kind, e.name)


# --- C46 -------------------------------------------------------------------------------------------------------------
DEFAULTS = {"convert_bare": False, "preserve_trailing_newlines": True, "escape_backslashes": True, "fail_on_undefined": (True, None), "overrides": None, "convert_data": True, "static_vars": None, "disable_lookups": False}
HARMLESS = ("cache",)
TEMPLATING = ("Templar", "template", "evaluate_conditional", "copy_with_new_env", "trust_as_template", "Conditional")
OTHERS = ("evaluate_expression", "resolve_variable_expression", "do_template", "_do_template", "from_string", "render", "native_concat", "literal_eval", "eval", "compile_expression", "safe_eval", "loads", "safe_load", "exec", "set_temporary_context", "generic_visit")


def loaders(chk: Check) -> set[str]:
    """The attributes of the state that are the loader of Ansible's strategy."""
    res = set()
    made = None
    for p in slim(chk, f"{MODULE}.run", names=("AnsibleDebugState",), pred=lambda e: e.kind == "setattr", kinds=(), opaque=OPAQUE_STATE, mode="none"):
        for e in p.events:
            made = e if e.kind in ("new", "enter") and "AnsibleDebugState" in e.callee else made
            if e.kind == "setattr" and e.recv is not None and e.recv.k == "new" and "AnsibleDebugState" in show(e.recv) and attr_path(plain(e.args[0])) == (SELF, ["_loader"]):
                res.add(e.name)
    if made is not None:
        chk.must(bool(res), "playbook-loader", made, "the state does not keep the loader of the playbook")
    elif not res:
        raise AnalysisError("what the state keeps the loader as is not understood")
    return res


def is_loader(x: t.Any, names: set[str]) -> bool:
    return isinstance(x, T) and attr_path(plain(x))[1][-1:] != [] and attr_path(plain(x)) in [(SELF, [n]) for n in names]


def flag(p: Path, word: str) -> bool | None:
    """Whether a setting of the module is known to be on."""
    res = None
    for k, v in p.pc.items():
        if is_op(k, "truthy") and show(k.a[1]).split(".")[-1] == word:
            res = v
    return res


def verbatim_text(x: T, *fields: str) -> bool:
    """The field itself, whatever marks it as a template."""
    x = plain(x)
    while isinstance(x, T) and x.k == "call" and tail(x.a[0]) == "trust_as_template" and len(x.a[2]) == 1:
        x = plain(x.a[2][0])
    return any(is_field(x, n) or attr_path(x)[1][-1:] == [n] for n in fields)


def inner(x: T) -> T:
    x = plain(x)
    while isinstance(x, T) and x.k == "call" and tail(x.a[0]) == "trust_as_template" and x.a[2]:
        x = plain(x.a[2][0])
    return x


def made_by(p: Path, x: t.Any) -> Ev | None:
    """The construction of the templar a value is or is made from."""
    if not isinstance(x, T):
        return None
    subs = set(walk_term(plain(x)))
    made = [e for e in p.events if e.kind == "new" and "Templar" in tail(e.callee) and e.res in subs]
    return made[-1] if made else None


def plain_templar(chk: Check, p: Path, e: Ev, templar: t.Any, names: set[str], frame_vars: t.Callable[[T], bool]) -> None:
    made = made_by(p, templar)
    if not chk.must(made is not None, "ansible-templar", e, f"{show(plain(templar))[:60] if templar is not None else 'nothing'} is not a templar of Ansible's own", p):
        return
    chk.must(is_loader(made.arg(0, "loader"), names), "playbook-loader", made, "the templar does not have the loader of the playbook", p)
    tv = made.arg(1, "variables")
    chk.must(isinstance(tv, T) and frame_vars(plain(tv)), "task-variables", made, f"the templar has {show(plain(tv))[:60] if isinstance(tv, T) else 'no'} variables, not those of the task", p)
    chk.must(len(made.args) <= 2 and set(made.kwargs) <= {"loader", "variables"}, "no-options", made, "the templar is made with options that Ansible does not use", p)
    # Nothing else is done to it.
    other = [x for x in p.events if x.kind == "setattr" and x.recv is not None and x.recv is made.res and x.name not in ("environment", "available_variables")]
    chk.must(not other, "no-options", made, "the templar is changed before it is used", p)
    for x in p.events:
        if x.kind == "call" and x.name == "copy_with_new_env" and isinstance(x.res, T) and isinstance(templar, T) and x.res in set(walk_term(plain(templar))):
            env = x.arg(0, "environment_class")
            chk.must(set(x.kwargs) <= {"environment_class"} and len(x.args) <= 1 and (env is None or "NativeEnvironment" in show(env) or show(env).endswith("AnsibleEnvironment") and flag(p, "DEFAULT_JINJA2_NATIVE") is not None), "no-options", x, "the templar is given an environment that is not Ansible's native one", p)


def options(e: Ev) -> list[str]:
    """The options of a templating that are not what Ansible does by itself."""
    res = ["*"] if len(e.args) > 1 else []
    for n, v in e.kwargs.items():
        if n == "variable" or n in HARMLESS:
            continue
        d = DEFAULTS.get(n, "?")
        ok = v.k == "const" and (v.a[0] in d if isinstance(d, tuple) else v.a[0] == d)
        if not ok:
            res.append(n)
    return res


def typed(p: Path, e: Ev) -> bool:
    """The result keeps its type: always so with data tagging, else by the native environment."""
    tagging, native = flag(p, "POST_DATATAGGING"), flag(p, "DEFAULT_JINJA2_NATIVE")
    if tagging is True or native is True:
        return True
    text = show(plain(e.recv)) if e.recv is not None else ""
    envs = [x for x in p.events if x.kind == "setattr" and x.name == "environment" and "Native" in show(x.args[0])]
    return "NativeEnvironment" in text or bool(envs)


def trusted(p: Path, a: T) -> bool:
    """With data tagging only what is trusted is a template."""
    return flag(p, "POST_DATATAGGING") is False or any(x.k == "call" and tail(x.a[0]) == "trust_as_template" for x in walk_term(plain(a)))


def braces(a: T, *fields: str) -> bool:
    """{{ the field }}, nothing more and nothing less."""
    x = inner(a)
    parts = [y for y in (x.a if x.k == "cat" else x.a[1:] if is_op(x, "cat") else ()) if isinstance(y, T)]
    text = "".join(str(y.a[0]) if y.k == "const" else "\0" for y in parts)
    src = [inner(y) for y in parts if y.k != "const"]
    return text.replace(" ", "") == "{{\0}}" and len(src) == 1 and any(is_field(src[0], n) or attr_path(src[0])[1][-1:] == [n] for n in fields)


def of_frame(x: T) -> bool:
    return attr_path(x)[1][-1:] == ["task_vars"]


def c46(chk: Check) -> None:
    """What the client enters is for Ansible's own templating to evaluate, as it is."""
    names = loaders(chk)
    n = 0
    for fn, fields in (("evaluate", ("expression",)), ("set_variable", ("value",))):
        f = chk.program.func(f"{STATE}.{fn}")
        ps = slim(chk, f, names=TEMPLATING + OTHERS + ("parse_repl_args", "set"), attrs=("environment", "available_variables"), kinds=("raise",), opaque=(PARSE,), pure=(TYPE_NAME,), pins=("truthy",))
        for p in ps:
            done = calls(p.events, "template")
            if p.flow != "ret":
                continue
            other = [e for e in p.events if e.kind == "call" and e.name in OTHERS]
            chk.must(not other, "ansible-templar", other[0] if other else f, "an expression is evaluated by something other than the templating of a task", p)
            stored = [e for e in p.events if e.kind == "call" and e.name == "set" and len(e.args) + len(e.kwargs) == 2]
            for e in stored:
                v = plain(e.arg(1, "value") or NONE)
                chk.must(any(plain(x.res) is v for x in done), "own-value", e, f"what is stored is {show(v)[:60]}, not the value Ansible gave", p)
            for e in done:
                n += 1
                a = e.arg(0, "variable")
                if not chk.must(isinstance(a, T), "as-entered", e, "nothing is templated", p):
                    continue
                chk.must(braces(a, *fields), "as-entered", e, f"what is templated is {show(plain(a))[:70]}, not what was entered as an expression", p)
                chk.must(trusted(p, a), "as-entered", e, "what was entered is not trusted as a template", p)
                chk.must(not options(e), "no-options", e, f"the templating is done with {options(e)}", p)
                chk.must(typed(p, e), "typed", e, "the value does not keep its type", p)
                plain_templar(chk, p, e, e.recv, names, of_frame)
    chk.floor(n, 4, "templated expressions and values")
    # The answer to an expression
    f = chk.program.func(f"{STATE}.evaluate")
    shown = 0
    for p in evaluations(chk):
        resp = [e for e in p.events if e.kind == "new" and e.name == "EvaluateResponse"]
        changed = [e for e in p.events if e.kind == "call" and e.name in ("set", "remove")]
        if p.flow != "ret" or len(resp) != 1 or changed or not calls(p.events, "template"):
            continue
        shown += 1
        result, typ = (plain(resp[-1].arg(i, w) or NONE) for i, w in ((1, "result"), (2, "type")))
        parsed = calls(p.events, "parse_repl_args")
        evaluated(chk, p, f, mk_sub(parsed[0]) if parsed else None, result, typ)
    chk.floor(shown, 2, "answers with a value")
    # Conditions
    start = chk.program.func(f"{STATE}.start_task")
    tv = mk("param", start.node.args.args[3].arg)
    m = 0
    ps = slim(chk, start, names=TEMPLATING + OTHERS, attrs=("when", "environment", "available_variables"), kinds=(), opaque=(REGISTER,), pure=(*(c.qual for c in climbers(chk)), TYPE_NAME), mode="none", pins=("truthy",))
    for p in ps:
        other = [e for e in p.events if e.kind == "call" and e.name in OTHERS]
        chk.must(not other, "ansible-templar", other[0] if other else start, "a condition is evaluated by something other than a condition of a task is", p)
        for e in calls(p.events, "template"):
            cond = any(x.k == "attr" and x.a[1] == "condition" for a in e.args for x in walk_term(plain(a)))
            chk.must(not cond, "ansible-templar", e, "a condition is templated, not evaluated as the condition of a task is", p)
        for e in calls(p.events, "evaluate_conditional"):
            m += 1
            check_condition(chk, start, p, e, tv)
            text, templar = e.args[0] if e.args else None, e.recv
            if "Conditional" in e.callee and "Templar" not in e.callee or e.recv is not None and "Conditional#" in show(e.recv):
                made = [x for x in p.events if x.kind == "new" and x.res is unver(e.recv)]
                chk.must(bool(made) and is_loader(made[-1].arg(0, "loader"), names), "playbook-loader", e, "the condition does not have the loader of the playbook", p)
                when = [x for x in p.events if x.kind == "setattr" and x.name == "when" and same(x.recv, e.recv)]
                v = when[-1].sargs[0] if when else None
                text = v.fields[0] if isinstance(v, Obj) and len(v.fields) == 1 else None
                templar = e.args[0] if e.args else None
                av = e.arg(1, "all_vars")
                chk.must(isinstance(av, T) and (plain(av) is tv or attr_path(plain(av))[1][-1:] == ["available_variables"] and made_by(p, av) is not None), "task-variables", e, "a condition is evaluated with variables that are not the task's", p)
            else:
                chk.must(isinstance(text, T) and trusted(p, text), "as-entered", e, "what was entered is not trusted as a template", p)
            chk.must(isinstance(text, T) and verbatim_text(text, "condition"), "as-entered", e, f"what is evaluated is {show(plain(text))[:70] if isinstance(text, T) else '?'}, not the condition as it was entered", p)
            plain_templar(chk, p, e, templar, names, lambda x: x is tv or of_frame(x))
            used = any(plain(y) is plain(e.res) for k in p.pc if is_op(k, "truthy") for y in (k.a[1],)) or e.raised
            chk.must(used, "own-value", e, "whether the condition holds is not what Ansible tells", p)
    chk.floor(m, 2, "evaluated conditions")


def mk_sub(parsed: Ev) -> T:
    from .looking import sub

    return sub(plain(parsed.res), "expression")
