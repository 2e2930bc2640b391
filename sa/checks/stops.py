"""When a playbook stops: C21, C24, C25."""

from __future__ import annotations

import ast
import re

from ..program import AnalysisError
from ..report import Check
from ._util import *
from .adapter import SELF, handler
from .strategy import DBG, REGISTER, STATE, THREAD, changes, hosts_stack, new_of, same_id

FILTERS = "_breakpoint_exceptions"
KINDS = {"ON_ERROR": ("is_failed", "ignore_errors"), "ON_UNREACHABLE": ("is_unreachable", "ignore_unreachable"), "ON_SKIPPED": ("is_skipped", None)}


def filter_values(chk: Check) -> dict[str, str]:
    """The wire name of each exception filter."""
    c = chk.program.cls(f"{DEBUGGEE}.ExceptionBreakpointType")
    res = {}
    for s in c.node.body:
        if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
            res[s.targets[0].id] = s.value.value
    return res


def fact_about(p: Path, *words: str, without: str | None = None) -> list[tuple[T, bool]]:
    res = []
    for k, v in p.pc.items():
        text = show(plain(k))
        if all(w in text for w in words) and not (without and without in text):
            res.append((k, v))
    return res


def yes_no(p: Path, *words: str) -> bool | None:
    """The truth of the condition that mentions all of the words."""
    res = None
    for k, v in fact_about(p, *words):
        if is_op(k, "isnone"):
            if v:
                res = False
        elif is_op(k, "is", "eq"):
            c = [x for x in plain(k).a[1:] if isinstance(x, T) and x.k == "const"]
            if c and isinstance(c[0].a[0], bool):
                res = v is c[0].a[0]
        else:
            res = v
    return res


def filter_on(p: Path, value: str) -> bool | None:
    """Whether an exception filter is known to be on or off; one that is not known to be set is off."""
    res = None
    for k, v in p.pc.items():
        q = plain(k)
        text = show(q)
        if FILTERS not in text or f"'{value}'" not in text:
            continue
        if is_op(q, "truthy") and "get(" in text:
            g = q.a[1]
            default = g.a[3] if isinstance(g, T) and len(g.a) > 3 and isinstance(g.a[3], T) else NONE
            if default.k == "const" and not default.a[0]:
                res = v
        elif is_op(q, "truthy", "in"):
            res = v
        elif is_op(q, "isnone") and v:
            res = False
    return res


def rescued(p: Path) -> bool | None:
    """Whether a rescue section is known to be around the task."""
    res: bool | None = None
    for k, v in p.pc.items():
        if is_op(k, "any") and "rescue" in show(k):
            if v:
                return True
            res = False
        elif is_op(k, "truthy") and "rescue" in names_in(k) | set(show(k).replace("(", " ").replace(")", " ").replace(".", " ").replace("'", " ").split()):
            if v:
                return True
            res = False
        elif is_op(k, "gt", "ne") and "rescue" in names_in(k) and v:
            return True
    return res


def chain_end(p: Path) -> bool:
    """The enclosing blocks have been followed until there is none."""
    for k, v in p.pc.items():
        if "_parent" in names_in(k) and plain(k).k == "op":
            x = plain(k).a[1] if len(plain(k).a) > 1 else None
            if isinstance(x, T) and x.k == "attr" and x.a[1] == "_parent":
                if (is_op(k, "truthy") and not v) or (is_op(k, "isnone") and v) or (is_op(k, "isa") and not v and "Block" not in show(k)):
                    return True
    return False


def c24(chk: Check) -> None:
    """The stop at the end of a task.

    A result is one of failed, unreachable or skipped; Ansible gives the options in _task_fields and links blocks by _parent."""
    values = filter_values(chk)
    for name in KINDS:
        if name not in values:
            raise AnalysisError(f"anchor vanished: there is no exception filter {name}")
    f = chk.program.func(f"{STATE}.end_task")
    result = mk("param", f.node.args.args[1].arg)
    host = mk("attr", result, "_host", ())
    paths = slim(
        chk,
        f,
        names=("StoppedEvent", "AnsibleDictVariable", "AnsibleListVariable", "AnsibleDictWithRawStoreVariable", "AnsibleHostVarsVariable"),
        attrs=("variables_result_id", "variables"),
        kinds=LOOP_EVENTS + ("raise", "enter"),
        pins=(FILTERS, "_task_fields", "rescue", "is_failed", "is_skipped", "is_unreachable"),
    )
    seen: set[str] = set()
    silent = 0
    for p in paths:
        if p.flow == "raise" and not (p.exc and "EndStrategy" in p.exc):
            continue
        kinds: dict[str, bool | None] = {}
        for name, (test, ignore) in KINDS.items():
            is_it = yes_no(p, "(", test)
            ig = yes_no(p, f"'{ignore}'") if ignore else False
            on = filter_on(p, values[name])
            parts = [is_it, (None if ig is None else not ig), on]
            if name == "ON_ERROR":
                r = rescued(p)
                parts.append(None if r is None and not chain_end(p) else not r)
                if r is not True and not chain_end(p):
                    parts[-1] = None
            kinds[name] = False if any(x is False for x in parts) else (True if all(parts) else None)
            if is_it is False:
                kinds[name] = False
        told = message_events(p.events, "StoppedEvent")
        chk.must(len(told) <= 1, "one-stop", f, "a result stops at most once", p)
        if not told:
            silent += 1
            other = any(yes_no(p, "(", KINDS[n][0]) is True for n in KINDS)
            for name, v in kinds.items():
                is_it = yes_no(p, "(", KINDS[name][0])
                chk.must(v is False or (is_it is None and other), "described-failures-stop", f, f"a result that is {KINDS[name][0][3:]} stops when its filter says so", p)
            continue
        e = told[0]
        which = [n for n, v in kinds.items() if v is True]
        seen |= set(which)
        chk.must(bool(which), "only-described-failures-stop", e, "a result only stops when it failed in a way a filter that is on describes, is not ignored and not rescued", p)
        reason = e.arg(None, "reason")
        chk.must(reason is not None and enum_member(reason) == "EXCEPTION", "stop-is-an-exception", e, "the stop is one for an exception", p)
        tid = e.arg(None, "thread_id")
        chk.must(tid is not None and of_host(p, tid, host), "own-thread-named", e, "the stop names the thread of the host", p)
        exposed = []
        for s in sets(p.events, "variables_result_id"):
            new = [c for c in changes(p.events, "variables") if c[0] == "add" and c[1] is not None and s.args and same(c[1], s.args[0])]
            made = new_of(p, new[0][2]) if new and new[0][2] is not None else None
            sf = plain(s.recv)
            ok = made is not None and any(same(a, mk("attr", result, "_result", ())) for a in list(made.args) + list(made.kwargs.values()))
            ok = ok and sf.k == "item" and "stackframes" in names_in(sf) and "stack_frames" in names_in(sf)
            if ok and p.index(s) < p.index(queue_of(p, e)):
                exposed.append(s)
        chk.must(len(exposed) == 1, "result-is-exposed", e, "the result can be seen from the frame that stopped, when the client is told", p)
    for name in KINDS:
        chk.must(name in seen, "described-failures-stop", f, f"a result that is {KINDS[name][0][3:]} can stop")
    chk.floor(silent, 6, "ways a result does not stop")
    check_result_scope(chk)
    check_filters(chk)


def queue_of(p: Path, e: Ev) -> Ev:
    """Where a message is handed over."""
    for x in after(p, e):
        if x.kind == "enter" and x.callee and x.callee.endswith(".queue_msg"):
            return x
    return e


def of_host(p: Path, tid: T, host: T) -> bool:
    """The id is the one of the thread of the host."""
    x = plain(tid)
    if x.k != "attr" or x.a[1] != "id":
        return False
    th = plain(x.a[0])
    if th.k == "new":
        return True
    return fact_eq(p.pc, lambda y: same(y, host), lambda y: same(y, mk("attr", th, "host", ()))) is True


def check_result_scope(chk: Check) -> None:
    """A result that is known is one of the scopes."""
    q = f"{STATE}.get_scopes"
    n = 0
    for p in returns(slim(chk, q, names=("ScopesResponse", "Scope", "append", "insert", "extend"), kinds=LOOP_EVENTS, pins=("variables_result_id",))):
        have = None
        for k, v in p.pc.items():
            if "variables_result_id" in names_in(k) and is_op(k, "truthy"):
                have = v
            elif "variables_result_id" in names_in(k) and is_op(k, "eq", "ne"):
                have = v is is_op(k, "ne")
        made = [e for e in p.events if e.kind == "new" and tail(e.callee) == "Scope" and "variables_result_id" in names_in(e.arg(None, "variables_reference") or NONE)]
        put = [e for e in p.events if e.kind == "call" and e.name in ("insert", "append", "extend") and any(mentions(a, m.res) for m in made for a in e.args if m.res is not None)]
        resp = message_events(p.events, "ScopesResponse")
        if have is not True:
            continue
        n += 1
        ok = len(made) == 1 and len(resp) == 1 and (bool(put) or mentions(resp[0].arg(None, "scopes") or NONE, made[0].res))
        chk.must(ok, "result-is-exposed", q, "a result that is known is one of the scopes of the frame", p)
    chk.floor(n, 1, "scopes of a frame with a result")


def check_filters(chk: Check) -> None:
    """The filters in effect are those of the last request."""
    f = handler(chk, DBG, "SetExceptionBreakpointsRequest")
    req = mk("param", f.node.args.args[1].arg)
    asked = mk("attr", req, "filters", ())
    n = 0
    for p in returns(slim(chk, f, names=("add", "append", "update"), attrs=(FILTERS,), kinds=LOOP_EVENTS + ("setitem",))):
        n += 1
        done = changes(p.events, FILTERS)
        whole = [c for c in done if c[0] == "replace"]
        ok = len(whole) == 1 and all(c[0] in ("add", "replace") for c in done)
        if not chk.must(ok, "filters-are-replaced", f, "the filters of an earlier request are no longer in effect", p):
            continue
        v, at = whole[0][2], whole[0][3]
        now = unver(v) if v is not None else None
        adds = [(c[1], c[2], c[3]) for c in done if c[0] == "add"]
        if now is not None:
            adds += [(e.args[0], e.args[1], e) for e in p.events if e.kind == "setitem" and e.recv is not None and unver(e.recv) is now]
            adds += [(e.arg(0), const(True), e) for e in p.events if e.kind == "call" and e.name in ("add", "append") and e.recv is not None and unver(e.recv) is now]
        adds = [a for i, a in enumerate(adds) if all(a[2] is not b[2] for b in adds[:i])]
        loops = [e for e in p.events if e.kind in ("loop", "loopzero") and e.recv is not None and base_of(e.recv) is plain(asked)]
        o = obj(at, 0)
        rest = isinstance(o, Obj) and o.kind == "dict" and all(k.k == "rest" or elem_of(k, asked) for k, _ in o.fields)
        if now is None or empty_value(o) or rest or (now.k == "lit" and len(now.a) < 2):
            good = bool(loops) and (loops[-1].kind == "loopzero" or (len(adds) == 1 and elem_of(adds[0][0], asked) and is_true(adds[0][1]) and not broken(p, loops[-1])))
            good = good and (now is not None or all(p.index(a[2]) > p.index(at) for a in adds))
        else:
            good = not adds and filter_table(plain(now), asked)
        chk.must(good, "filters-are-those-asked", f, "exactly the filters of the request are in effect", p)
    chk.floor(n, 1, "ways filters are set")


def is_true(x: t.Any) -> bool:
    return isinstance(x, T) and x.k == "const" and x.a[0] is True


def filter_table(x: T, asked: T) -> bool:
    """A container of exactly the requested filters."""
    if x.k == "comp":
        el = x.a[1]
        kv = el if isinstance(el, tuple) else (el.a if isinstance(el, T) and el.k in ("lit", "tuple", "op") else (el,))
        return not x.a[3] and len(x.a[2]) == 1 and base_of(x.a[2][0]) is plain(asked) and any(isinstance(k, T) and elem_of(k, asked) for k in kv) and (x.a[0] != "dict" or "True" in show(x))
    text = show(x)
    return show(asked) in text and ("True" in text if "fromkeys" in text or "get(" in text else is_op(x, "set", "list", "frozenset", "tuple", "copy"))


# --- C25 ---------------------------------------------------------------------

STOPPED = "_stopped_task"
STEPS = ("STEP_IN", "STEP_OUT", "STEP_OVER")


def climbers(chk: Check) -> list[FuncInfo]:
    """The functions that look for a parent of a task, they change nothing."""
    res = []
    for f in functions_of(chk.program, (STRAT,)):
        a = f.node.args.args
        names = [x.arg for x in a if x.arg not in ("self", "cls")]
        if len(names) != 1 or f.name.startswith("__"):
            continue
        reads = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        writes = [n for n in ast.walk(f.node) if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load)]
        if any(isinstance(n, ast.Return) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, bool) for n in ast.walk(f.node)):
            continue
        called = {getattr(n.func, "id", getattr(n.func, "attr", "?")) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        if "_parent" in reads and "action" not in reads and not writes and called <= {"isinstance", "getattr", "next", "iter", "cast"} and not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f.node)):
            res.append(f)
    return res


def check_climber(chk: Check, f: FuncInfo) -> None:
    """The nearest parent that is a task, none at the end of the chain."""
    found = none = 0
    for p in returns(slim(chk, f, names=(), kinds=LOOP_EVENTS, pins=("_parent",))):
        r = p.value
        if r is None or is_none(r) or truth_of(p.pc, r) is False:
            none += 1
            ends = any(is_op(k, "truthy") and not v and "_parent" in names_in(k) for k, v in p.pc.items()) or any(is_op(k, "isnone") and v and "_parent" in names_in(k) for k, v in p.pc.items())
            chk.must(ends, "parent-search-ends-at-the-top", f, "only a task without parents has none", p)
        else:
            found += 1
            ok = isa_of(p.pc, r, "Task") is True and ("_parent" in names_in(r) or "~" in show(r) and climbs(f))
            chk.must(ok, "parent-is-a-task", f, "the parent is the nearest include", p)
    chk.floor(found, 1, "a parent is found")
    chk.floor(none, 1, "a task has no parent")


def climbs(f: FuncInfo) -> bool:
    """Every name the function gives a value is a parent."""
    vals = [n.value for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.NamedExpr, ast.AnnAssign)) and n.value is not None]
    return bool(vals) and all(isinstance(v, ast.Attribute) and v.attr == "_parent" or isinstance(v, ast.Name) for v in vals)


def is_none(x: t.Any) -> bool:
    return isinstance(x, T) and x.k == "const" and x.a[0] is None


def is_state(x: t.Any) -> bool:
    y = plain(x)
    return isinstance(y, T) and y.k == "attr" and y.a[1] == "state"


def state_facts(pc: dict) -> dict[str, bool]:
    """What is known of the state of the thread before the task."""
    res: dict[str, bool] = {}
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "eq", "ne", "is"):
            m = [enum_member(x) for x in q.a[1:]]
            if any(is_state(x) for x in q.a[1:]) and any(m):
                name = next(x for x in m if x)
                val = v is not is_op(q, "ne")
                if val or name not in res:
                    res[name] = val
        elif is_op(q, "in") and is_state(q.a[1]):
            text = show(q.a[2])
            for name in ("CONTINUE", "WAIT", "END", *STEPS):
                if f"ThreadState.{name}" in text and not v:
                    res.setdefault(name, False)
    if any(res.values()):
        for n in STEPS:
            res.setdefault(n, False)
    return res


def of_stopped(x: t.Any) -> bool:
    return isinstance(x, (T, tuple)) and f".{STOPPED}" in show(x)


def c25(chk: Check) -> None:
    start = chk.program.find_func(f"{STATE}.start_task")
    task = mk("param", start.node.args.args[2].arg)
    finders = climbers(chk)
    for f in finders:
        if "Task" in {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} and not f.name.startswith("set"):
            check_climber(chk, f)
    pure = tuple(f.qual for f in finders)
    ps = slim(chk, start, names=("StoppedEvent", "AnsibleThread", "wait_for", "wait"), attrs=("state", STOPPED), kinds=LOOP_EVENTS, opaque=(REGISTER,), pure=pure, pins=("state", STOPPED))
    seen: dict[str, int] = {}
    for p in returns(ps) + [q for q in ps if q.flow == "raise"]:
        stop = [e for e in p.events if e.kind == "new" and tail(e.callee) == "StoppedEvent"]
        wrote = moved(p, STOPPED)
        if not stop:
            if p.flow == "raise":
                continue
            if wrote and not check_quiet_change(chk, start, p):
                continue
            if no_path(p):
                continue
            st = state_before(p, None)
            seen["silent"] = seen.get("silent", 0) + 1
            chk.must(st.get("STEP_IN") is False, "step-in-stops-at-next", start, "a host that steps in stops at its next task", p)
            if st.get("STEP_OVER") is not False:
                ok = no_stopped(p) or level(p, task, pure) is False
                chk.must(ok, "step-over-stops-at-same-level", start, "a host that steps over stops at the next task of the same level", p)
            if st.get("STEP_OUT") is not False:
                ok = no_stopped(p) or inside(p, task) is True
                chk.must(ok, "step-out-stops-outside", start, "a host that steps out stops at the next task outside of the include", p)
            continue
        e = stop[0]
        chk.must(len(stop) == 1, "one-stop", start, "a task stops at most once", p)
        st = state_before(p, e)
        reason = stop_reason(p, e)
        seen[reason] = seen.get(reason, 0) + 1
        if reason == "STEP":
            a = st.get("STEP_IN") is True
            b = st.get("STEP_OVER") is True and not no_stopped(p) and level(p, task, pure) is True
            c = st.get("STEP_OUT") is True and not no_stopped(p) and inside(p, task) is False
            for n in STEPS:
                if st.get(n):
                    seen[n] = seen.get(n, 0) + 1
            chk.must(a or b or c, "step-stops-where-promised", start, "a step stops only at the task it promises", p)
        elif reason == "BREAKPOINT":
            chk.must(st.get("STEP_OUT") is False, "step-out-ignores-breakpoints", start, "a breakpoint does not stop a host that steps out", p)
            chk.must(st.get("STEP_IN") is False, "step-in-reported", start, "a step that ends is reported as a step", p)
        else:
            chk.must(False, "stop-reason", start, "a task that starts stops for a step or a breakpoint", p)
        check_start_point(chk, start, p, e, task)
    for n in ("silent", "STEP", "BREAKPOINT", *STEPS):
        chk.floor(seen.get(n, 0), 1, f"{n} outcomes of a task start")
    check_end_stop(chk)
    check_steps(chk)
    check_writers(chk)


def state_before(p: Path, stop: Ev | None) -> dict[str, bool]:
    """The facts about the state the thread had when the task was started."""
    made = [e for e in sets(p.events, "state") if is_made(e)]
    first = [e for e in sets(p.events, "state") if not is_made(e)]
    if made:
        m = enum_member(made[0].args[0])
        return {n: n == m for n in STEPS}
    return state_facts(first[0].pc if first else (stop.pc if stop is not None else p.pc))


def is_made(e: Ev) -> bool:
    """The attribute of an object that has just been made."""
    return e.recv is not None and unver(e.recv).k == "new" and e.func is not None and e.func.name == "__init__"


def moved(p: Path, attr: str) -> list[Ev]:
    return [e for e in sets(p.events, attr) if not is_made(e)]


def check_quiet_change(chk: Check, where: FuncInfo, p: Path) -> bool:
    return chk.must(False, "start-point-kept", where, "only a stop changes what the next step starts from", p)


def stop_reason(p: Path, e: Ev) -> str:
    r = e.arg(None, "reason")
    return enum_member(r) or "?"


def no_stopped(p: Path) -> bool:
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "truthy") and isinstance(q.a[1], T) and q.a[1].k == "attr" and q.a[1].a[1] == STOPPED and not v:
            return True
        if is_op(q, "isnone") and isinstance(q.a[1], T) and q.a[1].k == "attr" and q.a[1].a[1] == STOPPED and v:
            return True
    return False


def names_task(x: T, pure: tuple[str, ...]) -> bool:
    """A value that tells a task from every other: the task itself or its id, not one of its other properties."""
    tails = tuple(n.rsplit(".", 1)[-1] for n in pure)
    text = show(x)
    if x.k == "attr":
        return x.a[1] in ("_uuid", "_parent", STOPPED)
    last = re.search(r"(\w+)\([^()]*\)$", text)
    if x.k == "mcall" or last:
        name = x.a[1] if x.k == "mcall" else last.group(1)
        return name in tails or name == "getattr" and "_uuid" in text
    return True


def level(p: Path, task: T, pure: tuple[str, ...]) -> bool | None:
    """Whether the parents of the task and of the task that had stopped are known to be the same."""
    res = None
    for k, v in p.pc.items():
        q = plain(k)
        if not is_op(q, "eq", "ne", "is"):
            continue
        a, b = q.a[1], q.a[2]
        if of_stopped(b) and not of_stopped(a):
            a, b = b, a
        if not of_stopped(a) or of_stopped(b):
            continue
        ta, tb = show(a), show(b)
        climbs = [all(any(f".{n.rsplit('.', 1)[-1]}(" in x or x.startswith(n.rsplit(".", 1)[-1] + "(") for n in pure) or "_parent" in x for x in (ta, tb))]
        if not climbs[0] or ("_uuid" in ta) != ("_uuid" in tb) or any(is_op(x, "truthy", "not", "bool", "len", "isnone") for x in (a, b)):
            continue
        if not all(names_task(x, pure) for x in (a, b)):
            continue
        if f"({show(task)})" in tb or show(task) + "." in tb or "~" in tb:
            res = v is not is_op(q, "ne")
    if res is None:
        # Neither of them has one, or only one of them.
        up = [(show(plain(k)), v) for k, v in p.pc.items() if is_op(plain(k), "truthy", "isnone") and ("parent" in show(plain(k)))]
        a = [(t_, v) for t_, v in up if STOPPED in t_]
        b = [(t_, v) for t_, v in up if STOPPED not in t_]
        if a and b:
            va, vb = (a[-1][1] is not a[-1][0].startswith("isnone"), b[-1][1] is not b[-1][0].startswith("isnone"))
            if not va and not vb:
                return True
            if va != vb:
                return False
    return res


def inside(p: Path, task: T) -> bool | None:
    """Whether the task is known to be part of the include the host steps out of, or not to be."""
    differs = equal = over = False
    facts = [(plain(k), v) for k, v in p.pc.items()]
    # The search for the frames that remain is another one.
    first = min([i for i, (q, _) in enumerate(facts) if is_op(q, "eq", "ne", "is", "in") and any(is_state(x) for x in q.a[1:])] or [0])
    for q, v in facts[first:]:
        text = show(q)
        if is_op(q, "eq", "ne", "is") and STOPPED in text and "._uuid" in text.replace("'_uuid'", "._uuid") or is_op(q, "is") and STOPPED in text:
            if v is not is_op(q, "ne"):
                equal = True
            else:
                differs = True
        elif is_op(q, "in") and STOPPED in text:
            if v:
                equal = True
            else:
                differs = True
        elif "any(" in text and STOPPED in text or "all(" in text and STOPPED in text:
            yes = v is ("any(" in text)
            equal, differs, over = equal or yes, differs or not yes, over or not yes
        elif is_op(q, "truthy", "isnone") and "parent" in text and STOPPED not in text:
            none = v is is_op(q, "isnone")
            # There is no parent at all, or none that has not been compared.
            if none and ("~" in text or f"({show(task)})" in text or f"{show(task)}._parent" in text):
                over = True
    if equal:
        return True
    if over:
        return False
    return None


def check_start_point(chk: Check, where, p: Path, e: Ev, task: T) -> None:
    waits = [x for x in p.events if x.kind == "call" and x.name in ("wait_for", "wait")]
    wrote = [x for x in moved(p, STOPPED) if not waits or p.index(x) < p.index(waits[0])]
    ok = bool(wrote) and same(wrote[-1].args[0], task)
    chk.must(ok, "stop-starts-the-next-step", where, "the task that stopped is what the next step starts from", p)
    tid = e.arg(None, "thread_id")
    host = mk("param", where.node.args.args[1].arg)
    if task.k == "param":
        new = [x for x in p.events if x.kind == "new" and tail(x.callee) == "AnsibleThread" and same(x.arg(None, "host"), host) and same(x.arg(None, "id"), tid)]
        chk.must(isinstance(tid, T) and (bool(new) or of_host(p, tid, host)), "stop-names-the-host", where, "a stop names the thread of the host", p)


def check_end_stop(chk: Check) -> None:
    f = chk.program.find_func(f"{STATE}.end_task")
    res = mk("param", f.node.args.args[1].arg)
    n = 0
    ps = slim(chk, f, names=("StoppedEvent", "wait_for", "wait"), attrs=("state", STOPPED), kinds=LOOP_EVENTS, pins=("state", STOPPED))
    for p in ps:
        stop = [e for e in p.events if e.kind == "new" and tail(e.callee) == "StoppedEvent"]
        if not stop:
            if moved(p, STOPPED):
                check_quiet_change(chk, f, p)
            continue
        n += 1
        chk.must(stop_reason(p, stop[0]) == "EXCEPTION", "stop-reason", f, "a task that ended stops for its result", p)
        check_start_point(chk, f, p, stop[0], mk("attr", res, "_task", ()))
    chk.floor(n, 3, "stops after a task")


def check_steps(chk: Check) -> None:
    """What a step request makes of the thread."""
    finders = tuple(f.qual for f in climbers(chk))
    for name, want in (("step_over", "STEP_OVER"), ("step_in", "STEP_IN"), ("step_out", "STEP_OUT"), ("continue_request", "CONTINUE")):
        f = chk.program.find_func(f"{STATE}.{name}")
        if f is None:
            raise AnalysisError(f"no {STATE}.{name}")
        got: set[str] = set()
        for p in returns(slim(chk, f, names=(), attrs=("state", STOPPED), kinds=LOOP_EVENTS, pure=finders, pins=(STOPPED, "action", "_parent", *(tail(q) for q in finders)))):
            for e in sets(p.events, "state"):
                m = enum_member(e.args[0])
                got.add(m or "?")
                kept = sets(p.events, STOPPED)
                if want == "STEP_IN":
                    inc = include_fact(e.pc)
                    none = no_stopped_in(e.pc)
                    ok = m == "STEP_IN" and (none or inc is True) or m == "STEP_OVER" and inc is False
                    chk.must(ok, "step-in-of-an-include", f, "step in enters an include and otherwise steps over", p)
                else:
                    chk.must(m == want, "step-kind", f, f"{name} sets the state of the host to {want}", p)
                if want != "STEP_OUT":
                    chk.must(not kept, "start-point-kept", f, "only step out changes what the step starts from", p)
                elif kept:
                    chk.must(out_target(p, kept[-1].args[0]), "step-out-of-the-include", f, "step out leaves the include the task is part of", p)
                else:
                    chk.must(no_stopped_in(e.pc), "step-out-of-the-include", f, "step out leaves the include the task is part of", p)
        chk.floor(len(got & {want}), 1, f"{name} changes the state to {want}")


def include_fact(pc: dict) -> bool | None:
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "in") and STOPPED in show(q.a[1]) and "action" in show(q.a[1]) and "_ACTION_ALL_INCLUDES" in show(q.a[2]):
            return v
    return None


def no_stopped_in(pc: dict) -> bool:
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "truthy", "isnone") and isinstance(q.a[1], T) and q.a[1].k == "attr" and q.a[1].a[1] == STOPPED:
            return v is is_op(q, "isnone")
    return False


def out_target(p: Path, x: T) -> bool:
    """The nearest include, none when the chain of parents ends."""
    if is_none(x) or truth_of(p.pc, x) is False:
        return any((is_op(plain(k), "truthy") and not v or is_op(plain(k), "isnone") and v) and "parent" in show(plain(k)) for k, v in p.pc.items())
    y = plain(x)
    if "parent" not in show(y):
        return False
    inc = any(is_op(plain(k), "in") and v and show(y) in show(plain(k)) and "_ACTION_ALL_INCLUDES" in show(plain(k)) for k, v in p.pc.items())
    return inc


def check_writers(chk: Check) -> None:
    """Nothing else decides what a step starts from."""
    allowed: set[str] = set()
    for q in ("start_task", "end_task", "step_out"):
        w = chk.program.find_func(f"{STATE}.{q}")
        for p in slim(chk, w, names=(), attrs=(STOPPED,), kinds=LOOP_EVENTS, opaque=(REGISTER,)):
            allowed |= {e.func.qual for e in sets(p.events, STOPPED) if e.func is not None}
    n = 0
    for f, node in sites(chk.program, (STRAT,), mutates(STOPPED)):
        n += 1
        chk.must(f.name == "__init__" or f.qual in allowed, "start-point-writers", (f, node), "only stops and step out change what a step starts from")
    chk.floor(n, 3, "writes of the task that stopped")


# --- C21 ---------------------------------------------------------------------

BPS = "_breakpoints"
# What makes a condition of the text, it cannot be evaluated when one of them fails.
PREPARES = ("trust_as_template", "Conditional")


def task_line(x: t.Any) -> bool:
    """The line of the path of the task."""
    y = plain(x)
    text = show(y)
    if "get_path()" not in text:
        return False
    return any(w in text for w in ("rsplit(task.get_path(), ':', 1)[1]", "rsplit(task.get_path(), ':', 1)[-1]", "(task.get_path() rpartition ':')[2]", "(task.get_path() rpartition ':')[-1]", "rsplit(task.get_path(), ':')[-1]", "split(task.get_path(), ':')[-1]")) and "int" in text


def no_path(p: Path) -> bool:
    """The task comes from no file."""
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "truthy", "isnone") and show(q.a[1]).endswith("get_path()") and v is is_op(q, "isnone"):
            return True
    return False


def task_file(x: t.Any) -> bool:
    text = show(plain(x))
    return any(w in text for w in ("rsplit(task.get_path(), ':', 1)[0]", "(task.get_path() rpartition ':')[0]"))


def limit(pc: dict, bp: T, name: str, below: bool) -> bool | None:
    """Whether the line of the task is on the right side of the first (below) or last line of the breakpoint."""
    res = None
    edge = mk("attr", mk("attr", bp, "breakpoint", ()), name, ())
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "isnone", "truthy") and same(q.a[1], edge):
            if v is is_op(q, "isnone"):
                return True
            continue
        if not is_op(q, "lt", "le", "gt", "ge"):
            continue
        op, a, b = q.a[0], q.a[1], q.a[2]
        if op in ("gt", "ge"):
            op, a, b = ("lt" if op == "gt" else "le"), b, a
        if not v:
            op, a, b = ("le" if op == "lt" else "lt"), b, a
        # Now a op b holds.
        if same(a, edge) and task_line(b):
            res = op == "le" if below else (False if op == "lt" else None)
        elif same(b, edge) and task_line(a):
            res = op == "le" if not below else (False if op == "lt" else None)
    return res


def condition_of(p: Path, pc: dict, bp: T, events: list[Ev]) -> bool | None:
    """Whether the condition of the breakpoint holds."""
    cond = mk("attr", mk("attr", bp, "source_breakpoint", ()), "condition", ())
    given = None
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "truthy", "isnone") and same(q.a[1], cond):
            if v is is_op(q, "isnone"):
                return True
            given = True
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "truthy", "is", "eq", "cond") and "evaluate_conditional" in show(q):
            return v
    if any(e.raised for e in events) or any(e.raised and e.kind in ("call", "new") and e.name in PREPARES for e in p.events):
        return False
    return None if given is None else None


def covers(p: Path, pc: dict, bp: T, events: list[Ev]) -> bool | None:
    """True when everything the breakpoint asks for holds, False when something does not."""
    res: set[bool | None] = set()
    for way in alternatives(pc):
        path = fact_eq(way, lambda x: same(x, mk("attr", bp, "actual_path", ())), task_file)
        got = [path, limit(way, bp, "line", True), limit(way, bp, "end_line", False), condition_of(p, way, bp, events)]
        res.add(False if any(g is False for g in got) else True if all(got) else None)
    return res.pop() if len(res) == 1 else None


def breakpoint_loops(p: Path) -> list[Ev]:
    return [e for e in p.events if e.kind in LOOP_EVENTS and e.recv is not None and f".{BPS}" in show(plain(e.recv))]


def elements(pc: dict) -> set[T]:
    """The breakpoints that were compared with the task."""
    res = set()
    for k in pc:
        for x in walk_term(plain(k)):
            if isinstance(x, T) and x.k == "attr" and x.a[1] in ("actual_path", "source_breakpoint", "breakpoint"):
                res.add(plain(x.a[0]))
    return res


def step_deciders(chk: Check) -> list[FuncInfo]:
    """The functions that only tell whether a step ends at a task, decided by C25."""
    quiet = {f.name for f in climbers(chk)} | {"isinstance", "getattr", "append", "len", "all", "any"}
    fs = [f for f in functions_of(chk.program, (STRAT,)) if not any(isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load) for n in ast.walk(f.node))]
    while more := {f.name for f in fs if f.name not in quiet and {getattr(n.func, "id", getattr(n.func, "attr", "?")) for n in ast.walk(f.node) if isinstance(n, ast.Call)} <= quiet}:
        quiet |= more
    res = []
    for f in fs:
        reads = {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        if f.name in quiet and f.cls is not None and f.cls.name == "AnsibleThread" and {STOPPED, "state"} <= reads and "id" not in reads:
            res.append(f)
    return res


def c21(chk: Check) -> None:
    start = chk.program.find_func(f"{STATE}.start_task")
    args = start.node.args.args
    task, host = mk("param", args[2].arg), mk("param", args[1].arg)
    pure = tuple(f.qual for f in (*climbers(chk), *step_deciders(chk)))
    ps = slim(chk, start, names=("StoppedEvent", "AnsibleThread", "evaluate_conditional", *PREPARES, "Templar", "wait_for", "wait"), attrs=("when",), kinds=LOOP_EVENTS, opaque=(REGISTER,), pure=pure, mode="try",
              pins=("line", "end_line", "actual_path", "condition", "source_breakpoint", "state"))
    hits = silent = 0
    tried: set[tuple[str, int]] = set()
    sites_: set[tuple[str, int]] = set()
    for p in ps:
        evals = [e for e in p.events if e.kind == "call" and e.name == "evaluate_conditional"]
        for e in evals:
            sites_.add((e.func.qual, e.node.lineno))
            if e.raised:
                tried.add((e.func.qual, e.node.lineno))
                chk.must(p.flow != "raise" or tail(str(p.exc)) == "EndStrategy", "condition-never-disturbs", start, "a condition that cannot be evaluated does not end the play", p)
            check_condition(chk, start, p, e, mk("param", args[3].arg))
        if p.flow != "ret" or any(is_op(k, "truthy") and not v and plain(k).a[1] in elements(p.pc) for k, v in p.pc.items()):
            continue
        stops = [e for e in p.events if e.kind == "new" and tail(e.callee) == "StoppedEvent"]
        if stops and stop_reason(p, stops[0]) == "BREAKPOINT":
            hits += 1
            e = stops[0]
            ids = obj(e, None, "hit_breakpoint_ids")
            bp = None
            if isinstance(ids, Obj) and ids.kind == "list" and len(ids.fields) == 1 and isinstance(ids.fields[0], T) and ids.fields[0].k == "attr" and ids.fields[0].a[1] == "id":
                bp = plain(ids.fields[0].a[0])
            if not chk.must(bp is not None and f".{BPS}" in show(bp), "stop-names-the-breakpoint", start, "a stop names the breakpoint that was hit", p):
                continue
            chk.must(covers(p, e.pc, bp, evals) is True, "breakpoint-covers-the-task", start, "a breakpoint stops a task of its file and its lines when its condition holds", p)
            new = [x for x in p.events if x.kind == "new" and tail(x.callee) == "AnsibleThread" and same(x.arg(None, "host"), host) and same(x.arg(None, "id"), e.arg(None, "thread_id"))]
            chk.must(bool(new) or isinstance(e.arg(None, "thread_id"), T) and of_host(p, e.arg(None, "thread_id"), host), "stop-names-the-host", start, "a stop names the thread of the host", p)
        elif not stops:
            if no_path(p):
                continue
            if state_before(p, None).get("STEP_OUT") is True:
                continue
            silent += 1
            loops = breakpoint_loops(p)
            last = loops[-1] if loops else None
            if last is not None and last.kind == "loopzero" or last is None and not elements(p.pc):
                chk.must(last is not None or has_fact(p, lambda k, v: f".{BPS}" in show(plain(k)) and not v), "covered-task-stops", start, "a task that is covered by a breakpoint stops", p)
                continue
            els = elements(p.pc)
            ok = bool(els) and (last is None or last.kind == "loopend") and all(covers(p, p.pc, b, evals) is False for b in els)
            chk.must(ok, "covered-task-stops", start, "a task that is covered by a breakpoint stops", p)
    if not sites_:
        for f, node in sites(chk.program, (STRAT, DEBUGGEE), is_call_of("evaluate_conditional")):
            sites_.add((f.qual, node.lineno))
            if guarded(f.node, node):
                tried.add((f.qual, node.lineno))
    for s in sites_:
        chk.must(s in tried, "condition-never-disturbs", start, f"the failure of a condition is caught ({s[0].rsplit('.', 1)[-1]}:{s[1]})")
    chk.floor(hits, 4, "stops at a breakpoint")
    chk.floor(silent, 4, "tasks no breakpoint stops")
    chk.floor(len(sites_), 1, "evaluations of a condition")


def guarded(func: ast.AST, call: ast.AST) -> bool:
    """Every failure of the call is caught in the function."""
    for n in ast.walk(func):
        if isinstance(n, ast.Try) and any(call is x for st in n.body for x in ast.walk(st)):
            if any(h.type is None or isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException") for h in n.handlers):
                return True
    return False


def check_condition(chk: Check, where: FuncInfo, p: Path, e: Ev, tvars: T) -> None:
    """The condition of the breakpoint with the variables of the task."""
    text = show(plain(e.args[0])) if e.args else ""
    if ".source_breakpoint.condition" in text:
        ok = True
    else:
        when = [x for x in before(p, e) if x.kind == "setattr" and x.callee == "when" and same(x.recv, e.recv)]
        v = when[-1].sargs[0] if when else None
        ok = isinstance(v, Obj) and len(v.fields) == 1 and ".source_breakpoint.condition" in show(plain(v.fields[0]))
    chk.must(ok, "own-condition", where, "the condition of the breakpoint is evaluated", p)
    made = [x for x in before(p, e) if x.kind == "new" and tail(x.callee) == "Templar"]
    ok = bool(made) and any(same(x.arg(1, "variables"), tvars) for x in made)
    chk.must(ok, "task-variables", where, "a condition is evaluated with the variables of the task", p)
