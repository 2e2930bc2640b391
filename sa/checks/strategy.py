"""The strategy plugin: C13, C14, C15, C16, C17, C19, C21, C24 to C29."""

from __future__ import annotations

import ast

from ..program import AnalysisError
from ..report import Check
from ._util import *
from .adapter import SELF, handler

STATE = f"{STRAT}.AnsibleDebugState"
THREAD = f"{STRAT}.AnsibleThread"
MODULE = f"{STRAT}.StrategyModule"
DBG = f"{DEBUGGEE}.AnsibleDebugger"
REGISTER = f"{PU}._breakpoints.register_block_breakpoints"
WAITS = ("wait_for", "wait")
RESUMES = {"continue_request": ("CONTINUE",), "step_in": ("STEP_IN", "STEP_OVER"), "step_out": ("STEP_OUT",), "step_over": ("STEP_OVER",)}
HANDLERS = {"ContinueRequest": "continue_request", "StepInRequest": "step_in", "StepOutRequest": "step_out", "NextRequest": "step_over"}
THREADS = mk("attr", SELF, "threads", ())


def is_state(x: t.Any, member: str) -> bool:
    x = unver(x)
    return isinstance(x, T) and x.k == "glob" and x.a[0].endswith(f"ThreadState.{member}")


def thread_state(x: t.Any, thread: T | None = None) -> bool:
    """The state attribute of a (the) thread."""
    x = plain(x)
    return isinstance(x, T) and x.k == "attr" and x.a[1] == "state" and (thread is None or same_thread(x.a[0], thread))


def same_thread(a: T, b: T) -> bool:
    """threads[t.id] is t, which the rules of C17 and C18 establish."""
    a, b = plain(a), plain(b)
    if a is b:
        return True
    for x, y in ((a, b), (b, a)):
        if x.k == "item" and isinstance(x.a[1], T) and x.a[1].k == "attr" and x.a[1].a[1] == "id" and plain(x.a[1].a[0]) is y:
            return True
        if x.k == "item" and y.k == "new":
            return True
    return False


def is_threads(x: t.Any) -> bool:
    x = plain(x)
    return isinstance(x, T) and x.k == "attr" and x.a[1] == "threads"


def all_threads(x: t.Any) -> bool:
    x = plain(x)
    return x.k == "item" and is_threads(x.a[0]) and elem_of(x, x.a[0])


def one_thread(x: t.Any, request: str) -> bool:
    """The thread named by the request."""
    x = plain(x)
    if x.k != "item" or not is_threads(x.a[0]) or not isinstance(x.a[1], T):
        return False
    r, names = attr_path(x.a[1])
    return r is mk("param", request) and names == ["thread_id"]


def stop_paths(chk: Check, fn: str, mode: str = "none") -> list[Path]:
    return slim(chk, f"{STATE}.{fn}", names=("StoppedEvent", "queue_msg", *WAITS, "EndStrategy", "notify_all", "notify"), attrs=("state",), opaque=[REGISTER], mode=mode, pins=("state",))


def reports(p: Path) -> list[Ev]:
    return [e for e in p.events if e.kind in ("enter", "call") and e.name == "queue_msg" and obj_is(e.sarg(0, "msg"), "StoppedEvent")]


def c13(chk: Check) -> None:
    """Stopping and resuming hosts.

    Condition variables and locks behave as documented by Python.
    The thread registered under an id is the one with that id (rules of C17 and C18)."""
    locks: set[T] = set()
    n = 0
    wrote: set[tuple[str, int]] = set()
    for fn in ("start_task", "end_task"):
        paths = stop_paths(chk, fn)
        got = 0
        for p in paths:
            rep = reports(p)
            waits = [e for e in p.events if e.kind == "call" and e.name in WAITS and "Condition" in e.callee]
            writes = sets(p.events, "state")
            for e in writes:
                if e.func is not None and e.func.name != "__init__":
                    wrote.add((e.func.module.rel, e.node.lineno))
            marks = [e for e in writes if is_state(e.args[0], "WAIT")]
            for e in rep:
                got += 1
                w = next((x for x in waits if p.index(x) > p.index(e)), None)
                out = next((fact_eq(p.pc, lambda x: is_state(x, "WAIT"), lambda x, y=y: thread_state(x, y.recv)) for y in marks), None)
                if w is None and out is False:
                    continue  # resumed before it had to wait
                if not chk.must(w is not None, "reported-stop-waits", e, "a reported stop is followed by waiting for the resume", p):
                    continue
                lock = plain(w.recv)
                locks.add(lock)
                m = [x for x in marks if p.index(x) < p.index(w)]
                if not chk.must(bool(m), "reported-stop-marks-thread", e, "the thread is marked as waiting before it waits", p):
                    continue
                first = min(p.index(e), p.index(m[0]))
                between = p.events[first : p.index(w)]
                chk.must(
                    lock in held(e) and lock in held(m[0]) and not any(x.kind == "release" and plain(x.recv) is lock for x in between),
                    "report-and-wait-are-one-step",
                    e,
                    "the report, the waiting state and the wait happen without letting go of the lock resumes take",
                    p,
                )
                tid = e.sarg(0, "msg").get("thread_id")
                r, names = attr_path(tid) if isinstance(tid, T) else (None, [])
                chk.must(
                    isinstance(tid, T) and unver(tid).k == "attr" and unver(tid).a[1] == "id" and same_thread(unver(tid).a[0], m[0].recv) or same_id(tid, m[0].recv),
                    "stop-names-the-waiting-thread",
                    e,
                    "the reported stop names the thread that is marked as waiting",
                    p,
                )
                out = fact_eq(p.pc, lambda x: is_state(x, "WAIT"), lambda x: thread_state(x, m[0].recv))
                chk.must(out is False, "waits-until-resumed", w, "the wait only ends once this thread is no longer marked as waiting", p)
                chk.must(
                    not [x for x in sets(after(p, w), "state")],
                    "keeps-the-requested-way",
                    w,
                    "nothing changes the requested way of going on after the wait",
                    p,
                )
            chk.must(bool(rep) or not marks, "no-waiting-state-without-report", paths[0].events[0] if not marks else marks[0], "a thread is only marked as waiting when the stop is reported", p)
            chk.must(bool(rep) or not waits, "no-wait-without-report", waits[0] if waits else f"{STATE}.{fn}", "the playbook only waits for a resume of a reported stop", p)
            chk.must(len(rep) <= 1, "one-report-per-stop", rep[-1] if rep else f"{STATE}.{fn}", "a stop is reported once", p)
        chk.floor(got, 1, f"paths of {fn} that stop")
        n += got
    chk.must(len(locks) == 1, "one-lock", STATE, "all stops use one condition variable")
    # --- resumes
    for fn, states in RESUMES.items():
        for p in returns(slim(chk, f"{STATE}.{fn}", names=("notify_all", "notify"), attrs=("state",), kinds=LOCK_EVENTS + LOOP_EVENTS)):
            wrote |= check_resume(chk, p, f"{STATE}.{fn}", locks, states)
            writes = sets(p.events, "state")
            single = truth_of(p.pc, mk("attr", mk("param", "request"), "single_thread", ()))
            if fn != "continue_request":
                chk.must(bool(writes) and all(one_thread(e.recv, "request") for e in writes), "resumes-the-requested-thread", f"{STATE}.{fn}", "a step resumes the thread it was requested for and no other", p)
            elif single is False:
                chk.must(covers_all(p, writes), "continue-resumes-all", f"{STATE}.{fn}", "a continue of all threads resumes every one", p)
            else:
                chk.must(bool(writes) and all(one_thread(e.recv, "request") for e in writes), "resumes-the-requested-thread", f"{STATE}.{fn}", "a continue of one thread resumes it and no other", p)
    for p in returns(slim(chk, f"{STATE}.disconnect", names=("notify_all", "notify"), attrs=("state",), kinds=LOCK_EVENTS + LOOP_EVENTS)):
        end = truth_of(p.pc, mk("attr", mk("param", "request"), "terminate_debuggee", ()))
        wrote |= check_resume(chk, p, f"{STATE}.disconnect", locks, ("END",) if end else ("CONTINUE",) if end is False else ())
        chk.must(covers_all(p, sets(p.events, "state")), "disconnect-resumes-all", f"{STATE}.disconnect", "a disconnect resumes every thread", p)
    # --- the answer tells what was resumed
    k = 0
    for p in returns(slim(chk, f"{STATE}.continue_request", names=("ContinueResponse",))):
        for e in message_events(p.events, "ContinueResponse"):
            k += 1
            v = kwargs_of(e, []).get("all_threads_continued", TRUE)
            single = truth_of(p.pc, mk("attr", mk("param", "request"), "single_thread", ()))
            ok = (v is FALSE and single is True) or (v is TRUE and single is False) or is_op(unver(v), "not")
            chk.must(ok, "continue-answer", e, "the answer to a continue says whether all threads were resumed", p)
    chk.floor(k, 1, "answers to a continue request")
    # --- each request reaches its own resume
    for msg, fn in HANDLERS.items():
        f = handler(chk, DBG, msg)
        for p in returns(slim(chk, f, names=tuple(RESUMES) + ("disconnect",))):
            got = [e for e in did(p.events, *RESUMES, "disconnect") if attr_path(e.recv)[1][-1:] == ["_strategy"] or e.recv.k != "param"]
            msg_arg = mk("param", f.node.args.args[1].arg)
            ok = [e.name for e in got] == [fn] and plain(got[0].arg(0, "request")) is msg_arg
            chk.must(ok, "request-reaches-its-resume", f, f"a {msg} is passed to {fn}", p)
    # --- no other place changes the state
    for f, node in sites(chk.program, [STRAT], lambda x: isinstance(x, ast.Attribute) and x.attr == "state" and isinstance(x.ctx, (ast.Store, ast.Del))):
        if f.name == "__init__":
            continue
        chk.must((f.module.rel, node.lineno) in wrote, "state-changes-are-known", f, f"line {node.lineno} changes the state of a thread outside of a stop or a resume")


def same_id(tid: t.Any, thread: T) -> bool:
    """The id a new thread was created with."""
    return isinstance(tid, T) and thread.k == "new" and tid.k != "const"


def covers_all(p: Path, writes: list[Ev]) -> bool:
    """Every thread is given a state, or there is none."""
    if any(e.kind == "loopbreak" for e in p.events):
        return False
    if writes:
        return all(all_threads(e.recv) for e in writes)
    return any((is_op(k, "truthy") and is_threads(k.a[1]) and not v) for k, v in p.pc.items())


def check_resume(chk: Check, p: Path, where: str, locks: set[T], states: tuple[str, ...]) -> set[tuple[str, int]]:
    writes = sets(p.events, "state")
    wrote = set()
    for e in writes:
        wrote.add((e.func.module.rel, e.node.lineno))
        chk.must(bool(locks & set(held(e))), "resume-takes-the-lock", e, "a resume changes the state with the lock of the stop held", p)
        chk.must(any(is_state(e.args[0], m) for m in states), "resume-state", e, f"the thread is resumed the requested way ({', '.join(states)})", p)
    if writes:
        note = [e for e in after(p, writes[-1]) if e.kind == "call" and e.name in ("notify_all", "notify") and plain(e.recv) in locks]
        chk.must(bool(note) and plain(note[0].recv) in held(note[0]), "resume-notifies", where, "a resume wakes up the waiting playbook after the state is changed", p)
    return wrote


# --- C14 -------------------------------------------------------------------------------------------------------------
DEBUG_CALLS = ("start_task", "end_task", "exit_threads")
OPAQUE_STATE = tuple(f"{STATE}.{n}" for n in DEBUG_CALLS) + (REGISTER,)


def module_paths(chk: Check, fn: str, mode: str) -> list[Path]:
    """The paths of an override of the Ansible strategy with the debugger's part opaque."""
    q = f"{MODULE}.{fn}"
    if chk.program.find_func(q) is None:
        chk.must(False, "overrides-strategy", MODULE, f"the strategy does not override {fn} anymore, what happens there is not presented to the debugger")
        return []

    def pred(e: Ev) -> bool:
        if e.kind in ("setattr", "setitem", "delattr") or (e.kind == "call" and e.name in MUTATORS + ("__delitem__",)):
            return e.recv is not None and root(e.recv).k == "param"
        return False

    return slim(
        chk,
        q,
        names=(fn, *DEBUG_CALLS, "register_block_breakpoints", "TaskResult"),
        kinds=LOOP_EVENTS + ("raise",),
        mode=mode,
        opaque=OPAQUE_STATE,
        pred=pred,
    )


def ansible_calls(p: Path, fn: str) -> list[Ev]:
    return [e for e in p.events if e.kind == "call" and e.name == fn and e.callee.startswith("ansible.")]


def debug_calls(p: Path, *names: str) -> list[Ev]:
    return [e for e in p.events if e.kind in ("call", "enter") and e.name in names and e.callee.startswith(STATE)]


def params_of(chk: Check, q: str) -> list[str]:
    return [a.arg for a in chk.program.func(q).node.args.args[1:]]


def passed_on(chk: Check, e: Ev, q: str) -> bool:
    """The parent's method is called with what this one was."""
    names = params_of(chk, q)
    a = chk.program.func(q).node.args
    if not names and a.vararg:
        return len(e.args) == 1 and e.args[0].k == "star" and plain(e.args[0].a[0]) is mk("param", a.vararg.arg) and "**" in "".join(e.kwargs)
    return all(plain(e.arg(i, n)) is mk("param", n) if e.arg(i, n) is not None else False for i, n in enumerate(names))


def argp(e: Ev, idx: int, name: str) -> t.Any:
    x = e.arg(idx, name)
    return plain(x) if x is not None else None


def c14(chk: Check) -> None:
    """What the debugger gets to see.

    Ansible's linear strategy starts every task by _queue_task or _execute_meta, gets every result from _process_pending_results and every included file from _load_included_file."""
    cls = chk.program.cls(MODULE)
    # --- tasks
    q = f"{MODULE}._queue_task"
    n = 0
    for p in module_paths(chk, "_queue_task", "all"):
        sup = ansible_calls(p, "_queue_task")
        start = debug_calls(p, "start_task")
        bad = [e for e in start if e.raised]
        chk.must(not (bad and sup), "ended-play-starts-nothing", q, "a task is not started when the debugger ended the play", p)
        if bad:
            chk.must(p.flow == "raise", "end-is-passed-on", bad[0], "the end of the play the debugger asked for is passed on", p)
        if p.flow != "ret":
            continue
        n += 1
        chk.must(len(sup) == 1, "task-started-once", q, "a task is started once", p)
        chk.must(len(start) == 1, "task-presented-once", q, "a task is presented once", p)
        if len(sup) != 1 or len(start) != 1:
            continue
        names = params_of(chk, q)
        chk.must(p.index(start[0]) < p.index(sup[0]), "presented-before-start", sup[0], "a task is presented before it is started", p)
        chk.must(passed_on(chk, sup[0], q), "task-unchanged", sup[0], "a task is started with what Ansible asked for", p)
        want = [mk("param", x) for x in names[:3]]
        chk.must([argp(start[0], 0, "host"), argp(start[0], 1, "task"), argp(start[0], 2, "task_vars")] == want, "presented-with-its-data", start[0], "a task is presented with its host, itself and its variables", p)
        chk.must(unver(p.value) is unver(sup[0].res), "result-unchanged", sup[0], "what Ansible returns is returned", p)
        chk.must(not altered(p), "task-unchanged", q, "nothing changes the task before it is started", p)
    # --- meta tasks
    q = f"{MODULE}._execute_meta"
    for p in module_paths(chk, "_execute_meta", "all"):
        sup = ansible_calls(p, "_execute_meta")
        start = debug_calls(p, "start_task")
        bad = [e for e in start if e.raised]
        chk.must(not (bad and sup), "ended-play-starts-nothing", q, "a meta task is not started when the debugger ended the play", p)
        if bad:
            chk.must(p.flow == "raise", "end-is-passed-on", bad[0], "the end of the play the debugger asked for is passed on", p)
        if p.flow != "ret":
            continue
        n += 1
        chk.must(len(sup) == 1, "task-started-once", q, "a meta task is run once", p)
        chk.must(len(start) == 1, "task-presented-once", q, "a meta task is presented once", p)
        if len(sup) != 1 or len(start) != 1:
            continue
        names = params_of(chk, q)
        host, task = mk("param", names[3]), mk("param", names[0])
        chk.must(p.index(start[0]) < p.index(sup[0]), "presented-before-start", sup[0], "a meta task is presented before it is run", p)
        chk.must(passed_on(chk, sup[0], q), "task-unchanged", sup[0], "a meta task is run with what Ansible asked for", p)
        chk.must(argp(start[0], 0, "host") is host and argp(start[0], 1, "task") is task, "presented-with-its-data", start[0], "a meta task is presented with its host and itself", p)
        tv = argp(start[0], 2, "task_vars")
        chk.must(tv is not None and ("task_vars" in show(tv) or "get_vars" in show(tv)), "presented-with-its-data", start[0], "a meta task is presented with its variables", p)
        chk.must(unver(p.value) is unver(sup[0].res), "result-unchanged", sup[0], "what Ansible returns is returned", p)
        chk.must(not altered(p), "task-unchanged", q, "nothing changes the task before it is run", p)
        # Its end
        refreshed = not other_meta(p)
        ends = debug_calls(p, "end_task")
        exits = debug_calls(p, "exit_threads")
        if refreshed:
            chk.must(len(exits) == 1 and not ends, "refresh-exits-threads", q, "the threads are exited once the inventory is refreshed", p)
        else:
            chk.must(len(ends) == 1 and not exits, "meta-end-presented", q, "the end of a meta task is presented once", p)
        for e in ends + exits:
            chk.must(p.index(e) > p.index(sup[0]), "meta-end-presented", e, "a meta task has ended once Ansible has run it", p)
        for e in ends:
            o = [x for x in p.events if x.kind == "new" and tail(x.callee) == "TaskResult"]
            ok = bool(o) and unver(e.arg(0, "result")) is unver(o[-1].res) and argp(o[-1], 0, "host") is host and argp(o[-1], 1, "task") is task
            chk.must(ok, "meta-end-presented", e, "the end of a meta task is presented for its host", p)
    # --- results
    q = f"{MODULE}._process_pending_results"
    for p in module_paths(chk, "_process_pending_results", "none"):
        sup = ansible_calls(p, "_process_pending_results")
        n += 1
        if not chk.must(len(sup) == 1, "results-fetched-once", q, "the results are taken from Ansible once", p):
            continue
        chk.must(passed_on(chk, sup[0], q), "task-unchanged", sup[0], "the results are asked for as Ansible does", p)
        chk.must(unver(p.value) is unver(sup[0].res), "result-unchanged", sup[0], "what Ansible returns is returned", p)
        ends = debug_calls(p, "end_task")
        loops = [e for e in p.events if e.kind == "loop" and over(e, sup[0].res)]
        if loops:
            ok = len(loops) == 1 and len(ends) == 1 and elem_of(ends[0].arg(0, "result"), sup[0].res) and not any(e.kind == "loopbreak" for e in p.events)
            chk.must(ok, "every-result-presented", q, "every result is presented to the debugger once, whatever it is", p)
        else:
            chk.must(not ends and empty_of(p, sup[0].res), "every-result-presented", q, "every result is presented to the debugger once, whatever it is", p)
    # --- included files
    q = f"{MODULE}._load_included_file"
    for p in module_paths(chk, "_load_included_file", "none"):
        sup = ansible_calls(p, "_load_included_file")
        n += 1
        if not chk.must(len(sup) == 1, "results-fetched-once", q, "an included file is loaded once", p):
            continue
        chk.must(passed_on(chk, sup[0], q), "task-unchanged", sup[0], "an included file is loaded as Ansible asked for", p)
        chk.must(unver(p.value) is unver(sup[0].res), "result-unchanged", sup[0], "what Ansible returns is returned", p)
        reg = [e for e in p.events if e.callee == REGISTER]
        ok = len(reg) == 1 and unver(reg[0].arg(1, "blocks")) is unver(sup[0].res)
        chk.must(ok, "included-files-scanned", q, "the blocks of an included file are scanned for breakpoints", p)
    # --- the play
    for p in slim(chk, f"{MODULE}.run", names=("run", *DEBUG_CALLS), mode="try", opaque=OPAQUE_STATE):
        sup = ansible_calls(p, "run")
        n += 1
        chk.must(len(sup) == 1, "play-run-once", f"{MODULE}.run", "the play is run once by Ansible's strategy", p)
        if p.flow == "ret" and sup and not any(e.raised for e in p.events):
            chk.must(unver(p.value) is unver(sup[0].res), "result-unchanged", sup[0], "what Ansible returns is returned", p)
    chk.floor(n, 8, "ways through the overridden strategy methods")
    # Nothing else calls for results or tasks
    for f in cls.methods.values():
        if f.name in ("__init__", "run", "_queue_task", "_execute_meta", "_process_pending_results", "_load_included_file"):
            continue
        for p in returns(chk.walk(f, raise_mode="none", opaque=OPAQUE_STATE, lossy=True, keep=lambda e: e.kind == "call" and e.callee.startswith("ansible."))):
            sup = ansible_calls(p, f.name)
            if sup:
                chk.must(unver(p.value) is unver(sup[0].res), "result-unchanged", f, "what Ansible returns is returned", p)


def over(e: Ev, it: T) -> bool:
    """A loop over all of a container."""
    x = e.recv
    while isinstance(x, T) and (x.k == "ver" or is_op(x, "list", "iter", "tuple", "copy", "enumerate")):
        x = x.a[0] if x.k == "ver" else x.a[1]
    return isinstance(x, T) and plain(x) is plain(it)


def empty_of(p: Path, it: T) -> bool:
    """The path is the one of an empty container."""
    return truth_of(p.pc, it) is False or none_of(p.pc, it) is True or any(e.kind == "loopzero" and over(e, it) for e in p.events)


def altered(p: Path) -> list[Ev]:
    return [e for e in p.events if e.kind in ("setattr", "setitem", "delattr") or (e.kind == "call" and e.name in MUTATORS + ("__delitem__",))]


# --- C15, C16 --------------------------------------------------------------------------------------------------------
REASONS = ("_breakpoints", "_breakpoint_exceptions")


def backing(chk: Check, prop: str) -> str:
    """The attribute a boolean property of the debugger tells."""
    names = set()
    for p in returns(slim(chk, f"{DBG}.{prop}")):
        r, n = attr_path(p.value)
        if r is SELF and len(n) == 1:
            names.add(n[0])
        elif p.value not in (TRUE, FALSE):
            names.add("?")
    if len(names) != 1 or "?" in names:
        raise AnalysisError(f"anchor vanished: {prop} does not tell one attribute")
    return names.pop()


def stop_reasons(chk: Check) -> tuple[set[str], set[str]]:
    """(breakpoint attributes, exception filter attributes) of the debugger that can make a playbook stop."""
    lines, filters = set(), set()
    for p in stop_paths(chk, "start_task"):
        for e in reports(p):
            for k, v in p.pc.items():
                lines |= debugger_attrs(k)
    for p in stop_paths(chk, "end_task"):
        for e in reports(p):
            for k, v in p.pc.items():
                if v:
                    filters |= debugger_attrs(k)
    return lines, filters


def debugger_attrs(x: T) -> set[str]:
    res = set()
    for y in walk_term(plain(x)):
        if isinstance(y, T) and y.k == "attr" and isinstance(y.a[0], T) and unver(y.a[0]).k == "attr" and unver(y.a[0]).a[1] == "_debugger":
            res.add(y.a[1])
    return res


def cleared(e: Ev, attr: str) -> bool:
    if e.kind == "setattr" and e.callee == attr:
        return empty_value(e.sarg(0)) or e.args[0] is NONE
    return e.kind == "call" and e.name == "clear" and e.recv is not None and attr_path(e.recv)[1][-1:] == [attr]


def release_paths(chk: Check):
    """(entry point, path, disconnect call or None) of everything that lets go of a playbook."""
    term = backing(chk, "should_terminate")
    names = ("disconnect", "DisconnectRequest", "_get_strategy", "wait_for", "notify_all", "put")
    attrs = (*REASONS, term, "_strategy", "state", "_ended")
    res = []
    for what, f in (("DisconnectRequest", handler(chk, DBG, "DisconnectRequest")), ("TerminateRequest", handler(chk, DBG, "TerminateRequest")), ("shutdown", chk.program.func(f"{DBG}.shutdown"))):
        got = returns(slim(chk, f, names=names, attrs=attrs, kinds=LOCK_EVENTS + LOOP_EVENTS + ("raise",), pins=("_strategy", term)))
        chk.floor(len(got), 2, f"ways through {what}")
        for p in got:
            d = [e for e in p.events if e.kind in ("enter", "call") and e.name == "disconnect"]
            res.append((what, f, p, d))
    return res


def has_strategy(p: Path) -> bool | None:
    x = mk("attr", SELF, "_strategy", ())
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "truthy") and attr_path(q.a[1])[1] == ["_strategy"]:
            return v
        if is_op(q, "isnone") and attr_path(q.a[1])[1] == ["_strategy"]:
            return not v
    return truthy_or_given(p.pc, x)


def terminates(chk: Check, what: str, f, p: Path, d: Ev | None) -> bool | None:
    """Does the playbook have to end on this path?"""
    if what == "TerminateRequest":
        return True
    if what == "DisconnectRequest":
        return truth_of(p.pc, mk("attr", mk("param", f.node.args.args[1].arg), "terminate_debuggee", ()))
    return None


def asks_terminate(p: Path, d: Ev) -> bool | None:
    o = d.sarg(0, "request")
    if isinstance(o, Obj):
        v = o.get("terminate_debuggee")
        if v is None:
            new = [e for e in p.events if e.kind == "new" and e.res is o.term]
            v = kwargs_of(new[0], ["seq", "restart", "terminate_debuggee"]).get("terminate_debuggee", FALSE) if new else None
        if v is TRUE:
            return True
        if v is FALSE or v is NONE:
            return False
        return truth_of(p.pc, v) if isinstance(v, T) else None
    a = d.arg(0, "request")
    return truth_of(p.pc, mk("attr", plain(a), "terminate_debuggee", ()))


def c15(chk: Check) -> None:
    """A playbook without a client.

    The end of the connection is reported to the protocol object once (rules of C06).
    The receive thread processes one message at a time, so none follows the disconnect."""
    term = backing(chk, "should_terminate")
    lines, filters = stop_reasons(chk)
    for r in ("_breakpoints",) if "_breakpoints" in lines else ():
        chk.rules["stop-reasons-found"] = chk.rules.get("stop-reasons-found", 0) + 1
    if not [x for x in lines if "breakpoint" in x] or not [x for x in filters if "breakpoint" in x or "exception" in x]:
        raise AnalysisError(f"anchor vanished: reasons to stop are {sorted(lines)} and {sorted(filters)}")
    reasons = {x for x in lines if x == "_breakpoints" or x.endswith("breakpoints")} | {x for x in filters if x.startswith("_breakpoint") or x.endswith("exceptions")}
    n = 0
    for what, f, p, d in release_paths(chk):
        keep_ended = what == "TerminateRequest" or terminates(chk, what, f, p, None) is True
        strat = has_strategy(p)
        for r in sorted(reasons):
            c = [e for e in p.events if cleared(e, r)]
            last = [e for e in p.events if e.kind in ("setattr", "setitem") and (e.callee == r or (e.recv is not None and attr_path(e.recv)[1][-1:] == [r]))]
            chk.must(bool(c), "reasons-to-stop-removed", f, f"{r} is emptied when the client is gone", p)
            chk.must(not last or cleared(last[-1], r), "reasons-to-stop-removed", f, f"{r} stays empty once the client is gone", p)
            for e in d:
                chk.must(any(p.index(x) < p.index(e) for x in c), "removed-before-resume", e, f"{r} is emptied before the hosts are resumed", p)
        if keep_ended:
            continue
        n += 1
        ended = truth_of(p.pc, mk("attr", SELF, term, ())) is True
        if strat is not False and not ended:
            chk.must(len(d) >= 1, "hosts-resumed", f, "all hosts are resumed when the client is gone", p)
        for e in d:
            if ended:
                continue
            chk.must(asks_terminate(p, e) is False, "hosts-resumed", e, "the hosts are resumed to go on", p)
            sets_ = sets(after(p, e), "state")
            chk.must(covers_all_of(after(p, e), p, sets_), "hosts-resumed", e, "every host is resumed when the client is gone", p)
            for x in sets_:
                chk.must(is_state(x.args[0], "CONTINUE"), "steps-cancelled", x, "no host is left with a step to stop at", p)
            lock = [x for x in held(e) if attr_path(x)[1][-1:] == ["_strategy_connected"]]
            chk.must(bool(held(e)), "play-cannot-change-meanwhile", e, "the play cannot end or start while its hosts are resumed", p)
    chk.floor(n, 4, "ways to let go of a playbook")
    # A lost connection
    q = f"{DEBUGGEE}.DAProtocol.connection_closed"
    for p in slim(chk, q, names=("shutdown",), opaque=[f"{DBG}.shutdown"]):
        chk.must(p.flow != "ret" or calls(p.events, "AnsibleDebugger.shutdown"), "lost-connection-shuts-down", q, "the loss of the connection shuts the debuggee down", p)
    # A stop always has a reason that has been removed
    k = 0
    for p in stop_paths(chk, "start_task"):
        for e in reports(p):
            k += 1
            stepping = any(fact_eq(p.pc, lambda x, m=m: is_state(x, m), thread_state) is True for m in ("STEP_IN", "STEP_OVER", "STEP_OUT"))
            o = e.sarg(0, "msg")
            ids = o.get("hit_breakpoint_ids")
            from_bp = ids is not None and "_breakpoints" in show_all(ids)
            chk.must(stepping or from_bp, "stop-has-a-reason", e, "a host only stops for a step or a breakpoint that is set", p)
    for p in stop_paths(chk, "end_task"):
        for e in reports(p):
            k += 1
            ok = any(v and (debugger_attrs(x) & filters) for x, v in p.pc.items())
            chk.must(ok, "stop-has-a-reason", e, "a host only stops for a failure with an exception filter that is set", p)
    chk.floor(k, 4, "reports of a stop")
    # Filters that are not set are off
    for name in ("should_stop_on_error", "should_stop_on_unreachable", "should_stop_on_skipped"):
        for p in returns(slim(chk, f"{DBG}.{name}")):
            v = unver(p.value)
            off = v is FALSE or in_filters(v, filters) or any(val and in_filters(x, filters) for x, val in p.pc.items())
            chk.must(off, "unset-filter-is-off", f"{DBG}.{name}", "an exception filter that is not set is off", p)
    # New threads just run
    for p in returns(chk.walk(f"{THREAD}.__init__", raise_mode="none")):
        st = sets(p.events, "state")
        chk.must(bool(st) and is_state(st[-1].args[0], "CONTINUE"), "new-host-runs", f"{THREAD}.__init__", "a host that is first seen just runs", p)


def in_filters(x: T, filters: set[str]) -> bool:
    """A lookup in the filters that is false for a missing one."""
    for y in walk_term(plain(x)):
        if is_op(y, "get") and attr_path(y.a[1])[1][-1:] and attr_path(y.a[1])[1][-1] in filters:
            return len(y.a) < 4 or not (isinstance(y.a[3], T) and y.a[3].k == "const" and bool(y.a[3].a[0]) and y.a[3].a[0] is True)
        if is_op(y, "in") and attr_path(y.a[2])[1][-1:] and attr_path(y.a[2])[1][-1] in filters:
            return True
        if y.k == "item" and attr_path(y.a[0])[1][-1:] and attr_path(y.a[0])[1][-1] in filters:
            return True
    return False


def show_all(x: t.Any) -> str:
    if isinstance(x, Obj):
        if x.kind == "list":
            return ", ".join(show_all(i) for i in x.fields)
        if x.kind == "dict":
            return ", ".join(show_all(k) + show_all(v) for k, v in x.fields)
        return x.qual + "(" + ", ".join(show_all(v) for v in x.fields.values()) + ")"
    return show(x)


def covers_all_of(events: list[Ev], p: Path, writes: list[Ev]) -> bool:
    if any(e.kind == "loopbreak" for e in events):
        return False
    if writes:
        return all(all_threads_of(e.recv) for e in writes)
    if any(e.kind == "loopzero" and "threads" in names_in(e.recv) for e in events):
        return True
    return any(is_op(k, "truthy") and attr_path(unver(k.a[1]))[1][-1:] == ["threads"] and not v for k, v in p.pc.items())


def all_threads_of(x: T) -> bool:
    x = plain(x)
    return x.k == "item" and attr_path(x.a[0])[1][-1:] == ["threads"] and elem_of(x, x.a[0])


def c16(chk: Check) -> None:
    """Ending a playbook.

    Ansible's strategy starts tasks by _queue_task and _execute_meta only, and treats RUN_FAILED_BREAK_PLAY as a failed play that ends the run."""
    term = backing(chk, "should_terminate")
    n = 0
    for what, f, p, d in release_paths(chk):
        end = terminates(chk, what, f, p, None)
        marks = [e for e in sets(p.events, term) if is_true(p, e.args[0]) or end is None and attr_path(flag_of(e.args[0]))[1] == ["terminate_debuggee"]]
        if end is True or (end is None and what != "shutdown"):
            n += 1
            chk.must(bool(marks), "request-is-remembered", f, "a request to terminate is remembered for the tasks and plays that follow", p)
            if has_strategy(p) is not False:
                chk.must(len(d) >= 1, "stopped-hosts-end", f, "the hosts of the current play are told to end", p)
            for e in d:
                chk.must(asks_terminate(p, e) is True, "stopped-hosts-end", e, "the hosts of the current play are told to end", p)
                chk.must(any(p.index(m) < p.index(e) for m in marks), "remembered-before-resume", e, "the request is remembered before the hosts are resumed", p)
                st = sets(after(p, e), "state")
                chk.must(covers_all_of(after(p, e), p, st), "stopped-hosts-end", e, "every host is told to end", p)
                for x in st:
                    chk.must(is_state(x.args[0], "END"), "stopped-hosts-end", x, "every host is told to end", p)
        elif what == "shutdown":
            n += 1
            for e in d:
                known = truth_of(p.pc, mk("attr", SELF, term, ()))
                chk.must(known is False or asks_terminate(p, e) is True or (known is True and False), "shutdown-does-not-revert", e, "the end of the connection does not resume hosts that were told to end", p)
        else:
            chk.must(all(attr_path(flag_of(e.args[0]))[1] in ([term], ["terminate_debuggee"]) for e in sets(p.events, term)), "only-on-request", f, "a disconnect that does not ask for it does not end the playbook", p)
    chk.floor(n, 5, "ways a playbook is told to end")
    # Nothing takes it back
    for f, node in sites(chk.program, [DEBUGGEE, STRAT, CALLBACK, f"{PU}._breakpoints"], lambda x: isinstance(x, ast.Attribute) and x.attr == term and isinstance(x.ctx, (ast.Store, ast.Del))):
        if f.name == "__init__" and f.cls is not None and f.cls.qual == DBG:
            continue
        for p in slim(chk, f, attrs=(term,), opaque=[f"{DBG}._disconnect", f"{DBG}._get_strategy"]):
            for e in sets(p.events, term):
                chk.must(is_true(p, e.args[0]) or flag(p, term) is False or raises_only(e.args[0], term), "never-taken-back", e, "a request to terminate is never taken back", p)
    # --- no task is started afterwards
    k = 0
    for p in stop_paths(chk, "start_task"):
        t_ = flag(p, term)
        if p.flow == "raise" and p.exc and p.exc.endswith("EndStrategy"):
            k += 1
            continue
        chk.must(t_ is False, "checked-before-every-task", f"{STATE}.start_task", "a task is only started when the playbook was not told to end", p)
        for e in reports(p):
            k += 1
            chk.must(fact_eq(p.pc, lambda x: is_state(x, "END"), thread_state) is False, "checked-after-every-stop", e, "a task is only started after a stop when its host was not told to end", p)
    for p in returns(stop_paths(chk, "end_task")):
        k += 1
        ok = fact_eq(p.pc, lambda x: is_state(x, "END"), thread_state) is False or flag(p, term) is False
        chk.must(ok, "checked-after-every-result", f"{STATE}.end_task", "a play only goes on after a result when the host was not told to end", p)
    chk.floor(k, 10, "ways through the start and end of a task")
    for fn in ("_queue_task", "_execute_meta"):
        got = 0
        for p in module_paths(chk, fn, "all"):
            sup = ansible_calls(p, fn)
            start = debug_calls(p, "start_task")
            for e in sup:
                ok = [x for x in start if p.index(x) < p.index(e) and not x.raised]
                chk.must(bool(ok) and not any(x.raised for x in start), "no-task-after-the-end", e, "a task is only started once the debugger let it", p)
            for e in [x for x in start + debug_calls(p, "end_task") if x.raised]:
                got += 1
                chk.must(p.flow == "raise", "end-reaches-the-play", e, "the end is passed on to the play", p)
        chk.floor(got, 1, f"ways the debugger ends a play in {fn}")
    for p in module_paths(chk, "_process_pending_results", "all"):
        for e in [x for x in debug_calls(p, "end_task") if x.raised]:
            chk.must(p.flow == "raise", "end-reaches-the-play", e, "the end is passed on to the play", p)
    # --- the play fails
    got = 0
    for p in slim(chk, f"{MODULE}.run", names=("run", *DEBUG_CALLS), kinds=("caught", "raise"), mode="try", opaque=OPAQUE_STATE):
        for e in [x for x in p.events if x.kind == "caught" and tail(x.callee) == "EndStrategy"]:
            got += 1
            v = unver(p.value)
            ok = p.flow == "ret" and isinstance(v, T) and (v.k in ("glob", "attr")) and "BREAK_PLAY" in show(v)
            chk.must(ok, "play-ends-as-failed", e, "a play the debugger ended is reported to Ansible as failed and ended", p)
        if any(x.raised for x in ansible_calls(p, "run")) and p.flow == "ret":
            chk.must(any(x.kind == "caught" and tail(x.callee) == "EndStrategy" for x in p.events), "other-failures-are-passed-on", f"{MODULE}.run", "only the end the debugger asked for is handled", p)
    chk.floor(got, 1, "ways a play ends by request")


def flag_of(v: T) -> T:
    """What decides the value of a flag, without the bool() around it."""
    k = plain(v)
    while is_op(k, "truthy", "bool") and isinstance(k.a[1], T):
        k = plain(k.a[1])
    return k


def is_true(p: Path, v: T) -> bool:
    return v is TRUE or truth_of(p.pc, flag_of(v)) is True


def raises_only(x: T, attr: str) -> bool:
    """self.x = self.x or y"""
    return is_op(unver(x), "or") and any(attr_path(y)[1][-1:] == [attr] for y in unver(x).a[1:] if isinstance(y, T))


def flag(p: Path, attr: str) -> bool | None:
    res = None
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "truthy") and attr_path(q.a[1])[1][-1:] == [attr]:
            res = v
    return res


def other_meta(p: Path) -> bool:
    """The meta task is known not to refresh the inventory."""
    return has_fact(p, lambda k, v: not v and any(isinstance(y, T) and y.k == "const" and y.a[0] == "refresh_inventory" for y in walk_term(k)))


# --- C17, C18 --------------------------------------------------------------------------------------------------------
IDS = ("AnsibleThread", "AnsibleStackFrame", "Breakpoint", "AnsibleLineBreakpoint")
TABLES = ("threads", "stackframes", "variables", "_breakpoints")


def public_methods(chk: Check, q: str) -> list:
    return [f for n, f in chk.program.cls(q).methods.items() if not n.startswith("_")]


def reaching(chk: Check, modules: list[str], pred, roots: list, walk) -> list[tuple[t.Any, list[Path]]]:
    """The paths of the entry points, and of every function with a place the predicate selects that none of them reaches."""
    res = [(f, walk(f)) for f in roots]
    seen = {x for _, ps in res for x in visited(ps)}
    for f, node in sites(chk.program, modules, pred):
        if (f.module.rel, node.lineno) not in seen and f.name != "__init__":
            res.append((f, walk(f)))
    return res


def thread_paths(chk: Check) -> list[tuple[t.Any, list[Path]]]:
    def walk(f) -> list[Path]:
        return slim(chk, f, names=("ThreadEvent", "queue_msg", "AnsibleThread"), attrs=("threads",), kinds=LOOP_EVENTS + ("raise",), opaque=[REGISTER, f"{THREAD}.should_break", f"{THREAD}.set_state"], pins=("threads",))

    roots = [chk.program.func(f"{STATE}.{n}") for n in ("start_task", "end_task", "exit_threads")]
    return reaching(chk, [STRAT], lambda n: mutates("threads")(n) or is_call_of("ThreadEvent", "AnsibleThread")(n), roots, walk)


def thread_events(p: Path, reason: str) -> list[tuple[Ev, T]]:
    res = []
    for e in p.events:
        if e.kind in ("call", "enter") and e.name == "queue_msg":
            o = e.sarg(0, "msg")
            if obj_is(o, "ThreadEvent"):
                n = [x for x in p.events if x.kind == "new" and x.res is o.term]
                kw = kwargs_of(n[0], ["seq", "reason", "thread_id"]) if n else {}
                if reason in show(kw.get("reason", NONE)):
                    res.append((e, kw.get("thread_id", NONE)))
    return res


def new_of(p: Path, x: t.Any) -> Ev | None:
    for e in p.events:
        if e.kind == "new" and e.res is unver(x):
            return e
    return None


def is_main(x: T) -> bool:
    return x.k == "const" and x.a[0] == 1


def id_of_elem(x: T) -> bool:
    return "threads" in names_in(x) or any(y.k == "elem" for y in walk_term(plain(x)) if isinstance(y, T))


def not_found(p: Path, host: T) -> bool:
    """No thread of the host was found on the path."""
    looked = False
    for k, v in p.pc.items():
        q = plain(k)
        if mentions(q, host) and "threads" in names_in(q) and "host" in names_in(q):
            if is_op(q, "eq", "is"):
                found = v
                e = [y for y in q.a[1:] if isinstance(y, T) and y is not host]
                th = e[0].a[0] if e and e[0].k == "attr" else None
                falsy = th is not None and truth_of(p.pc, th) is False
                if found and not falsy:
                    return False
            elif v:
                return False
            looked = True
        elif is_op(q, "truthy") and is_threads(q.a[1]) and not v:
            looked = True
    return looked or any(e.kind == "loopzero" and "threads" in names_in(e.recv) for e in p.events)


def c17(chk: Check) -> None:
    """Threads of the hosts."""
    n = k = 0
    for f, ps in thread_paths(chk):
        for p in ps:
            ch = changes(p.events, "threads")
            started, exited = thread_events(p, "started"), thread_events(p, "exited")
            for what, key, value, e in ch:
                if what == "add":
                    n += 1
                    new = new_of(p, value)
                    if not chk.must(new is not None and tail(new.callee) == "AnsibleThread", "known-thread-is-new", e, "a thread that becomes known is a new one", p):
                        continue
                    chk.must(same(new.arg(None, "id"), key) and not is_main(plain(key)), "started-once", e, "a thread is known by its id", p)
                    same_ = [x for x, i in started if same(i, key)]
                    chk.must(len(same_) == 1, "started-once", e, "a host's thread is announced once, with its id, when it becomes known", p)
                    host = new.arg(None, "host")
                    ok = host is not None and host.k == "param" and not_found(p, host)
                    chk.must(ok, "one-thread-per-host", e, "a thread is only added for a host that has none", p)
                elif what == "remove":
                    k += 1
                    main = fact_eq(p.pc, is_main, lambda x, key=key: same(x, key))
                    chk.must(main is False or (key is not None and mentions_filter(key)), "main-thread-stays", e, "the main thread always stays known", p)
                    same_ = [x for x, i in exited if key is not None and same(i, key)]
                    chk.must(len(same_) == 1, "exited-once", e, "a thread's end is announced once, with its id, when it is no longer known", p)
                elif what == "replace":
                    if e.func is not None and e.func.name == "__init__":
                        continue
                    k += 1
                    o = e.sarg(0) if e.kind == "setattr" else None
                    keeps = isinstance(o, Obj) and o.kind == "dict" and any(is_main(plain(i)) for i, _ in o.fields)
                    chk.must(keeps, "main-thread-stays", e, "the main thread always stays known", p)
                else:
                    chk.must(False, "known-thread-is-new", e, "threads only become known one by one", p)
            for x, i in started:
                chk.must(any(w == "add" and same(i, key) for w, key, _, _ in ch), "started-once", x, "only a thread that becomes known is announced", p)
            for x, i in exited:
                ok = any((w == "remove" and same(i, key)) or w == "replace" for w, key, _, _ in ch)
                chk.must(ok and not is_main(plain(i)), "exited-once", x, "only a thread that is no longer known is reported to have exited", p)
                if any(w == "replace" for w, _, _, _ in ch):
                    chk.must(fact_eq(p.pc, is_main, lambda y, i=i: same(y, i)) is False or mentions_filter(i), "main-thread-stays", x, "the main thread never exits", p)
    chk.floor(n, 1, "places a thread becomes known")
    chk.floor(k, 1, "places a thread is no longer known")
    # A host is known by what it is, the copies Ansible makes of it are the same host
    is_host = lambda x: isinstance(x, ast.Attribute) and x.attr in ("host", "_host")
    known = lambda x: isinstance(x, ast.Compare) and len(x.ops) == 1 and any(is_host(y) for y in (x.left, x.comparators[0])) and not any(isinstance(y, ast.Constant) for y in (x.left, x.comparators[0]))
    for f, node in sites(chk.program, (STRAT,), known):
        chk.must(not isinstance(node.ops[0], (ast.Is, ast.IsNot)), "hosts-are-compared", f"{f.qual}:{node.lineno}", "the host of a thread is compared, another object can be the same host")
    # exit_threads leaves none
    q = f"{STATE}.exit_threads"
    for p in returns(slim(chk, q, names=("ThreadEvent", "queue_msg", "AnsibleThread"), attrs=("threads",), kinds=LOOP_EVENTS + ("raise",), opaque=[REGISTER, f"{THREAD}.should_break", f"{THREAD}.set_state"], pins=("threads",))):
        ch = [c for c in changes(p.events, "threads") if c[0] in ("remove", "replace")]
        none = any(e.kind == "loopzero" for e in p.events) or has_fact(p, lambda k, v: not v and "threads" in names_in(k) and is_op(k, "truthy", "any"))
        main = any(v and is_op(x, "eq") and any(is_main(plain(y)) for y in x.a[1:]) and any(id_of_elem(y) for y in x.a[1:]) for x, v in p.pc.items())
        chk.must(bool(ch) or none or main, "all-exited", q, "every thread but the main one exits", p)
        chk.must(not any(e.kind == "loopbreak" for e in p.events), "all-exited", q, "every thread but the main one exits", p)
        for w, key, _, e in ch:
            if w == "remove":
                lp = [x for x in p.events if x.kind == "loop"]
                chk.must(any(x.recv is not None and "threads" in names_in(x.recv) for x in lp), "all-exited", e, "every thread but the main one exits", p)
    # The start
    for p in returns(slim(chk, f"{STATE}.__init__", attrs=("threads",), names=("AnsibleThread",))):
        st = sets(p.events, "threads")
        o = st[-1].sarg(0) if st else None
        ok = isinstance(o, Obj) and o.kind == "dict" and len(o.fields) == 1 and is_main(plain(o.fields[0][0]))
        if ok:
            new = new_of(p, o.fields[0][1].term if isinstance(o.fields[0][1], Obj) else o.fields[0][1])
            ok = new is not None and is_main(plain(new.arg(None, "id")))
        chk.must(ok, "main-thread-first", f"{STATE}.__init__", "a play starts with the main thread only", p)
    # The end of a play and of an inventory
    m = 0
    for p in slim(chk, f"{MODULE}.run", names=("run", *DEBUG_CALLS), mode="try", opaque=OPAQUE_STATE):
        sup = ansible_calls(p, "run")
        if not sup:
            continue
        m += 1
        ex = [e for e in debug_calls(p, "exit_threads") if p.index(e) > p.index(sup[-1])]
        chk.must(bool(ex), "exited-with-the-play", sup[-1], "all threads exit when a play ends, for whatever reason", p)
    chk.floor(m, 2, "ways a play ends")
    for p in returns(module_paths(chk, "_execute_meta", "none")):
        if not other_meta(p):
            m += 1
            sup, ex = ansible_calls(p, "_execute_meta"), debug_calls(p, "exit_threads")
            chk.must(bool(ex) and bool(sup) and p.index(ex[-1]) > p.index(sup[-1]), "exited-with-the-inventory", f"{MODULE}._execute_meta", "all threads exit after the inventory is refreshed", p)
    chk.floor(m, 3, "ways a play or an inventory ends")
    # What the client sees
    for p in returns(slim(chk, f"{STATE}.get_threads", names=("ThreadsResponse", "Thread", "append"), kinds=LOOP_EVENTS)):
        new = message_events(p.events, "ThreadsResponse")
        got = listing(p, new[0].arg(None, "threads") or NONE) if len(new) == 1 else None
        ok = got is not None and [attr_path(x)[1] for x in got[0]] == [["threads"]]
        chk.must(ok, "known-threads-listed", f"{STATE}.get_threads", "exactly the known threads are listed", p)
        for v in got[1] if got else ():
            x = new_of(p, v)
            ok = x is not None and tail(x.callee) == "Thread" and id_of_elem(x.arg(0, "id"))
            chk.must(ok, "known-threads-listed", f"{STATE}.get_threads", "the known threads are listed by their ids", p)
    for p in returns(slim(chk, f"{THREAD}.to_dap", names=("Thread",))):
        new = message_events(p.events, "Thread")
        chk.must(len(new) == 1 and same(new[0].arg(None, "id"), mk("attr", SELF, "id", ())), "known-threads-listed", f"{THREAD}.to_dap", "a thread is listed by its id", p)


def mentions_filter(key: T) -> bool:
    """The elements are selected by not being the main thread."""
    for y in walk_term(plain(key)):
        if isinstance(y, T) and y.k == "comp" and any(isinstance(z, T) and is_main(z) for z in walk_term(y)):
            return True
    return False


def grows(e: Ev) -> bool:
    """The event counts something up."""
    if e.kind == "setattr":
        c, d = lin(e.args[0]) if isinstance(e.args[0], T) else (0, {})
        return bool(d) and c > 0
    return e.kind == "new" and (tail(e.callee) in IDS or tail(e.callee).endswith("Variable")) or (e.kind == "call" and e.name == "next")


def id_of_new(e: Ev) -> T | None:
    return e.arg(0, "id")


def fresh_id(p: Path, e: Ev, x: T) -> str | None:
    """The counter a value was taken from that has been moved on since, in the same round of the loops."""
    for c in p.events:
        if c.loops[: len(e.loops)] != e.loops:
            continue
        if c.kind == "setattr" and grows(c) and c.callee in names_in(x):
            k, d = lsub(lin(c.args[0]), lin(x))
            if k >= 1 and not d:
                return c.callee
        if c.kind == "call" and c.name == "next" and c.res is unver(x) and c.args and attr_path(c.args[0])[1]:
            return attr_path(c.args[0])[1][-1]
    return None


def role(e: Ev) -> str:
    n = tail(e.callee)
    return "variable" if n.endswith("Variable") and "dap" not in e.callee.split(".")[1:2] else n


def own_new(e: Ev) -> bool:
    """An object of the debugger that gets an id (not just a message that carries one)."""
    if e.kind != "new":
        return False
    n = tail(e.callee)
    return n in ("AnsibleThread", "AnsibleStackFrame", "AnsibleLineBreakpoint") or (n == "Breakpoint" and e.callee.startswith(DAP)) or (n.endswith("Variable") and e.callee.startswith(STRAT))


def c18(chk: Check) -> None:
    """Ids.

    The counters only grow in the threads that hold the GIL, CPython does not switch threads between reading and storing one there."""
    opaque = [REGISTER, f"{THREAD}.should_break", f"{THREAD}.set_state", f"{THREAD}.should_stop_on_exception"]

    def walk(f) -> list[Path]:
        return slim(chk, f, names=("next",), attrs=(*TABLES, "breakpoint"), kinds=("raise",), pred=grows, opaque=opaque)

    roots = [handler(chk, DBG, "SetBreakpointsRequest"), chk.program.func(f"{DBG}.register_path_breakpoint")]
    roots += [f for f in public_methods(chk, STATE) if f.name in ("start_task", "end_task", "get_scopes", "evaluate", "get_variables", "set_variable")]
    creating = is_call_of("AnsibleThread", "AnsibleStackFrame", "AnsibleLineBreakpoint", "AnsibleDictVariable", "AnsibleListVariable", "AnsibleHostVarsVariable", "AnsibleDictWithRawStoreVariable")
    counters: dict[str, set[str]] = {}
    n = 0
    for f, ps in reaching(chk, [STRAT, DEBUGGEE], lambda x: creating(x), roots, walk):
        for p in ps:
            used: dict[tuple[str, T], Ev] = {}
            for e in p.events:
                if not own_new(e):
                    continue
                x = id_of_new(e)
                if tail(e.callee) == "AnsibleThread" and x is not None and is_main(plain(x)):
                    continue
                n += 1
                if x is None:
                    chk.must(False, "own-id", e, "every object gets an id", p)
                    continue
                if tail(e.callee) == "Breakpoint" and attr_path(x)[1][-1:] == ["id"] and "_breakpoints" in names_in(x):
                    continue  # a new resolution, see below
                c = fresh_id(p, e, x)
                if not chk.must(c is not None, "id-is-new", e, "an object gets an id that was not given out before", p):
                    continue
                counters.setdefault(c, set()).add(role(e))
                k = (role(e), x)
                chk.must(k not in used or e.loops != used[k].loops, "id-given-once", e, "an id is given to one object", p)
                used[k] = e
            for what in TABLES:
                for w, key, value, e in changes(p.events, what):
                    if e.recv is not None and e.kind == "setattr" or w != "add" or key is None:
                        continue
                    new = new_of(p, value) if value is not None else None
                    if e.kind == "call" and e.name in ("append", "insert"):
                        continue  # the ids of a frame's variables
                    if not chk.must(new is not None, "found-by-its-id", e, "what is known by an id is a new object", p):
                        continue
                    chk.must(id_of_new(new) is not None and same(id_of_new(new), key), "found-by-its-id", e, "an object is found by its own id", p)
            for e in [x for x in p.events if x.kind == "new" and tail(x.callee) == "AnsibleLineBreakpoint"]:
                b = new_of(p, e.arg(3, "breakpoint") or NONE)
                chk.must(b is not None and same(b.arg(0, "id"), e.arg(0, "id")), "client-knows-the-id", e, "the client is told the id a breakpoint is found by", p)
            for e in sets(p.events, "breakpoint"):
                b = new_of(p, e.args[0])
                ok = b is not None and b.arg(0, "id") is not None and same(b.arg(0, "id"), mk("attr", plain(e.recv), "id", ()))
                chk.must(ok, "client-knows-the-id", e, "a breakpoint keeps its id when it is resolved again", p)
    chk.floor(n, 8, "objects that get an id")
    chk.floor(len(counters), 3, "counters of ids")
    # The counters
    init = slim(chk, f"{DBG}.__init__", attrs=tuple(counters), names=("count",))
    for c, roles in counters.items():
        low = 2 if "AnsibleThread" in roles else 1
        for p in returns(init):
            st = sets(p.events, c)
            v = unver(st[-1].args[0]) if st else NONE
            cnt = [e for e in p.events if e.kind == "call" and e.res is v and e.name == "count"]
            first = (unver(cnt[0].args[0]) if cnt[0].args else const(0)) if cnt else v
            ok = first.k == "const" and isinstance(first.a[0], int) and first.a[0] >= low
            chk.must(ok, "ids-mean-something", f"{DBG}.__init__", f"ids are not 0, which means none, nor that of the main thread ({c})", p)
        for f, node in sites(chk.program, chk.program.modules, lambda x, c=c: isinstance(x, ast.Attribute) and x.attr == c and isinstance(x.ctx, (ast.Store, ast.Del))):
            if f.name == "__init__" and f.cls is not None and f.cls.qual == DBG:
                continue
            for p in slim(chk, f, attrs=(c,), opaque=opaque, kinds=("raise",)):
                last = 0
                for e in sets(p.events, c):
                    k, d = lin(e.args[0])
                    ok = k > last and len(d) == 1 and list(d.values()) == [1] and c in names_in(list(d)[0])
                    chk.must(ok, "counters-only-grow", e, "an id is never given out again", p)
                    last = k if not e.loops else 0
    # They belong to the one debugger of the process
    meta = [k.value for k in chk.program.cls(DBG).node.keywords if k.arg == "metaclass"]
    q = chk.program.canon(chk.program.resolve_expr(chk.program.cls(DBG).module, meta[0], None) or "") if meta else None
    if chk.must(q is not None and f"{q}.__call__" in chk.program.functions, "one-debugger", DBG, "there is one debugger for all plays"):
        made = 0
        for p in returns(slim(chk, f"{q}.__call__", names=("__call__", "type"), pred=lambda e: e.kind == "setitem" or (e.kind == "call" and e.name in MUTATORS))):
            made_ = [e for e in p.events if e.kind == "call" and e.name == "__call__"]
            kept = [e for e in p.events if e.kind == "setitem"]
            known = [v for k, v in p.pc.items() if is_op(k, "in", "isnone", "truthy")]
            if made_:
                made += 1
                there = any(v is is_op(k, "in", "truthy") for k, v in p.pc.items() if is_op(k, "in", "isnone", "truthy"))
                ok = bool(known) and not there and bool(kept) and same(kept[-1].args[1], made_[0].res)
                chk.must(ok, "one-debugger", f"{q}.__call__", "a debugger is only made when there is none, and kept", p)
            else:
                chk.must(p.value is not NONE and bool(known), "one-debugger", f"{q}.__call__", "the debugger that was made is the one that is used", p)
        chk.floor(made, 1, "ways the debugger is made")
    # The ids that are told are those of the objects
    for cls_, name in (("AnsibleStackFrame", "StackFrame"), ("AnsibleThread", "Thread")):
        for p in returns(slim(chk, f"{STRAT}.{cls_}.to_dap", names=(name,))):
            new = message_events(p.events, name)
            chk.must(len(new) == 1 and same(new[0].arg(0, "id"), mk("attr", SELF, "id", ())), "client-knows-the-id", f"{STRAT}.{cls_}.to_dap", "the client is told the id an object is found by", p)
    for cls_ in ("AnsibleThread", "AnsibleStackFrame", "AnsibleVariable"):
        for p in returns(slim(chk, f"{STRAT}.{cls_}.__init__", attrs=("id",))):
            st = sets(p.events, "id")
            chk.must(len(st) == 1 and same(st[0].args[0], mk("param", "id")), "client-knows-the-id", f"{STRAT}.{cls_}.__init__", "an object knows its id", p)
        for f, node in sites(chk.program, [STRAT], lambda x: isinstance(x, ast.Attribute) and x.attr == "id" and isinstance(x.ctx, ast.Store)):
            chk.must(f.name == "__init__", "client-knows-the-id", f, "the id of an object never changes")


# --- C19 -------------------------------------------------------------------------------------------------------------
FRAME_OPAQUE = [f"{THREAD}.__init__", f"{STRAT}.AnsibleStackFrame.__init__", REGISTER, f"{THREAD}.should_break", f"{THREAD}.set_state", f"{THREAD}.should_stop_on_exception", f"{DBG}.get_breakpoint"]
INCLUDES = "_ACTION_ALL_INCLUDES"


def frame_paths(chk: Check, f, *more: str) -> list[Path]:
    return slim(
        chk,
        f if not isinstance(f, str) else f"{STATE}.{f}",
        names=("AnsibleStackFrame", "add", "append", "AnsibleDictVariable", "AnsibleListVariable", "AnsibleHostVarsVariable", "AnsibleDictWithRawStoreVariable"),
        attrs=("stack_frames", "stackframes", "variables", *more),
        kinds=LOOP_EVENTS + ("raise",),
        opaque=FRAME_OPAQUE,
        pins=("stack_frames", "stackframes", "_uuid"),
    )


def owner(e: Ev) -> T:
    """The object whose attribute is changed."""
    x = unver(e.recv)
    return unver(x.a[0]) if x.k == "attr" else x


def dict_changes(p: Path, attr: str) -> list:
    """Changes of the debugger's table (not of a frame's or thread's list)."""
    return [c for c in changes(p.events, attr) if c[3].kind != "setattr" and attr_path(c[3].recv) == (SELF, [attr])]


def frame_end(e: Ev) -> T | None:
    """The id that is taken off a stack."""
    i = e.arg(0)
    if i is None:
        i = const(-1)
    if i.k != "const" or i.a[0] not in (0, -1):
        return None
    return mk("item", plain(e.recv), i)


def check_removals(chk: Check, p: Path, where: t.Any) -> list[Ev]:
    """Every frame that is taken off a stack is forgotten with its variables, and nothing else is."""
    res = []
    gone: set[int] = set()
    for w, key, _, e in changes(p.events, "stack_frames"):
        if w != "remove":
            continue
        top = frame_end(e)
        if not chk.must(top is not None, "innermost-frame-removed", e, "the frame that is removed is the innermost one", p):
            continue
        res.append(e)
        fr = [c for c in dict_changes(p, "stackframes") if c[0] == "remove" and c[1] is not None and (same(c[1], top) or (e.res is not None and same(c[1], e.res)))]
        chk.must(len(fr) == 1, "frame-is-forgotten", e, "a frame that is taken off the stack is not known anymore", p)
        vs = [c for c in dict_changes(p, "variables") if c[0] == "remove" and c[1] is not None and of_frame(c[1], top, e)]
        loops = [x for x in p.events if x.kind in ("loop", "loopzero") and x.recv is not None and is_vars_of(x.recv, top, e)]
        gone |= {id(c[3]) for c in fr + vs}
        ok = bool(loops) and (len(vs) == 1 if loops[-1].kind == "loop" else True)
        ok = ok and not broken(p, loops[-1])
        chk.must(ok, "variables-go-with-the-frame", e, "all variables of a frame that is removed are removed", p)
    for attr in ("stackframes", "variables"):
        for c in dict_changes(p, attr):
            if c[0] != "add":
                chk.must(id(c[3]) in gone, "nothing-else-removed", c[3], "a frame or variable is only removed when its frame leaves the stack", p)
    return res


def is_vars_of(x: T, top: T, e: Ev) -> bool:
    b = base_of(x)
    return isinstance(b, T) and b.k == "attr" and b.a[1] == "variables" and (mentions(plain(b), plain(top)) or (e.res is not None and mentions(plain(b), plain(e.res))))


def of_frame(key: T, top: T, e: Ev) -> bool:
    k = plain(key)
    return k.k == "elem" and is_vars_of(k.a[0], top, e) or (k.k == "item" and is_vars_of(k.a[0], top, e))


def hosts_stack(p: Path, e: Ev, host: T) -> bool:
    """The stack is the one of the thread of the host."""
    th = plain(owner(e))
    if th.k == "new" or is_op(th, "call") or (th.k in ("call", "opq") and "_add_thread" in show(th)):
        return True
    if fact_eq(p.pc, lambda x: same(x, host), lambda x: same(x, mk("attr", th, "host", ()))) is True:
        return True
    return "_add_thread" in show(th)


def ancestor_fact(k: T, task: T) -> bool:
    """A comparison of a frame's task with what includes the task."""
    q = plain(k)
    if not is_op(q, "in", "eq", "is", "any"):
        return False
    n = names_in(q)
    if not {"stackframes", "task"} <= n:
        return False
    if is_op(q, "in"):
        x = unver(q.a[1])
        return x.k == "attr" and x.a[1] in ("_uuid", "task")
    return is_op(q, "any") or "_uuid" in n


def thread_exits(p: Path) -> list:
    return [c for c in dict_changes(p, "threads") if c[0] == "remove"]


def check_exit(chk: Check, p: Path, e: Ev) -> int:
    """The frames of a thread, with their variables, go with it."""
    frames = [c for c in dict_changes(p, "stackframes") if c[0] != "add"]
    loops = [x for x in p.events if x.kind in ("loop", "loopzero") and x.recv is not None and attr_path(base_of(x.recv))[1][-1:] == ["stack_frames"]]
    some = [v for k, v in p.pc.items() if is_op(k, "truthy") and attr_path(k.a[1])[1][-1:] == ["stack_frames"]]
    if not frames:
        none = any(x.kind == "loopzero" for x in loops) or bool(some) and not some[0]
        chk.must(none, "frames-go-with-the-thread", e, "the frames of a thread that exits are removed with it", p)
        return 1
    taken = [c[3] for c in changes(p.events, "stack_frames") if c[0] == "remove"]
    for c in frames:
        ok = c[0] == "remove" and c[1] is not None and ("stack_frames" in names_in(plain(c[1])) or any(x.res is not None and same(c[1], x.res) for x in taken))
        ok = ok and (bool(loops) or bool(some)) and not any(broken(p, x) for x in loops)
        chk.must(ok, "frames-go-with-the-thread", c[3], "the frames of a thread that exits, and no others, are removed with it", p)
        of = [x for x in p.events if x.kind in ("loop", "loopzero") and x.recv is not None and attr_path(base_of(x.recv))[1][-1:] == ["variables"] and "stackframes" in names_in(base_of(x.recv)) | names_in(x.recv)]
        vs = [v for v in dict_changes(p, "variables") if v[0] == "remove" and v[1] is not None and any(mentions(plain(v[1]), plain(base_of(x.recv))) for x in of)]
        ok = bool(of) and (of[-1].kind == "loopzero" or len(vs) == 1) and not broken(p, of[-1])
        chk.must(ok, "variables-go-with-the-frame", c[3], "all variables of a frame that is removed are removed", p)
        chk.must(len(vs) == len([v for v in dict_changes(p, "variables") if v[0] != "add"]), "nothing-else-removed", c[3], "a variable is only removed with its frame", p)
    return 1


def c19(chk: Check) -> None:
    """The stack of a host.

    Ansible links a task to what includes it by _parent, results of the tasks of a host come in order, and the result of an include comes before its tasks."""
    f = chk.program.func(f"{STATE}.start_task")
    names = [a.arg for a in f.node.args.args]
    host, task, tvars = (mk("param", x) for x in names[1:4])
    n = k = 0
    order: set[bool] = set()
    for p in frame_paths(chk, f):
        rem = check_removals(chk, p, f)
        adds = [c for c in changes(p.events, "stack_frames") if c[0] not in ("remove",)]
        facts = [(x, v) for x, v in p.pc.items() if ancestor_fact(x, task)]
        alone = truth_of(p.pc, mk("attr", task, "_parent", ())) is False or none_of(p.pc, mk("attr", task, "_parent", ())) is True
        for e in rem:
            n += 1
            chk.must(hosts_stack(p, e, host), "own-stack", e, "a task only changes the stack of its host", p)
            chk.must(alone or any(not v for _, v in facts), "include-left", e, "a frame is only removed when the next task is not in its include", p)
        if p.flow != "ret":
            continue
        k += 1
        empty = empties(p)
        chk.must(empty or any(v for _, v in facts), "frames-are-includes", f, "the frames below a task are those of the includes it is in", p)
        for x, v in facts:
            check_ancestors(chk, p, x, task, f)
        ok = len(adds) == 1 and adds[0][0] == "add" and adds[0][1] is not None
        if not chk.must(ok, "own-frame-on-top", f, "a task gets one frame, on top of the stack", p):
            continue
        _, pos, sid, e = adds[0]
        chk.must(e.name == "append" or (pos is not None and pos.k == "const" and pos.a[0] == 0), "own-frame-on-top", e, "a task's frame is on top of the stack", p)
        chk.must(hosts_stack(p, e, host), "own-stack", e, "a task only changes the stack of its host", p)
        front = e.name != "append"
        chk.must(all(plain(frame_end(x).a[1]) is const(0 if front else -1) for x in rem), "innermost-frame-removed", e, "frames are removed where they are added", p)
        order.add(front)
        chk.must(all(p.index(e) > p.index(x) for x in rem), "own-frame-on-top", e, "a task's frame is put on what remains of the stack", p)
        fr = [c for c in dict_changes(p, "stackframes") if c[0] == "add" and same(c[1], sid)]
        new = new_of(p, fr[0][2]) if len(fr) == 1 else None
        ok = new is not None and same(new.arg(None, "id"), sid) and same(new.arg(None, "task"), task) and same(new.arg(None, "task_vars"), tvars)
        chk.must(ok, "own-frame-on-top", e, "a task's frame is known and has the task and its variables", p)
    chk.floor(n, 2, "frames an include leaves")
    chk.floor(k, 4, "ways a task starts")
    # --- its end
    f = chk.program.func(f"{STATE}.end_task")
    result = mk("param", f.node.args.args[1].arg)
    m = 0
    for p in frame_paths(chk, f):
        rem = check_removals(chk, p, f)
        chk.must(not [c for c in changes(p.events, "stack_frames") if c[0] != "remove"], "nothing-else-removed", f, "the end of a task adds no frame", p)
        for e in rem:
            chk.must(plain(frame_end(e).a[1]) is const(0 if True in order else -1), "innermost-frame-removed", e, "frames are removed where they are added", p)
            chk.must(hosts_stack(p, e, mk("attr", result, "_host", ())), "own-stack", e, "the end of a task only changes the stack of its host", p)
        if p.flow != "ret":
            continue
        m += 1
        inc = include_fact(p)
        chk.must(inc is not None, "include-keeps-its-frame", f, "the end of a task tells an include from another task", p)
        if inc is False:
            chk.must(len(rem) == 1, "frame-goes-with-the-task", f, "the frame of a task is removed when it ends", p)
        elif inc is True:
            chk.must(not rem, "include-keeps-its-frame", f, "the frame of an include stays until it is left", p)
    chk.floor(m, 3, "ways a task ends")
    # --- the threads of hosts that are not known anymore
    x_ = 0
    exits: set[int] = set()
    for f, ps in reaching(chk, [STRAT], mutates("threads"), [m for m in chk.program.cls(STATE).methods.values() if m.name != "__init__"], lambda g: frame_paths(chk, g, "threads")):
        for p in ps:
            for c in thread_exits(p):
                exits.add(id(f))
                x_ += check_exit(chk, p, c[3]) if p.flow == "ret" else 0
    chk.floor(x_, 1, "ways a thread exits")
    # --- variables
    v_ = 0
    done = {id(chk.program.func(f"{STATE}.{x}")) for x in ("start_task", "end_task")}

    def pred(x: ast.AST) -> bool:
        return any(mutates(a)(x) for a in ("stack_frames", "stackframes", "variables"))

    roots = [chk.program.func(f"{STATE}.{x}") for x in ("start_task", "end_task", "get_scopes", "evaluate", "get_variables", "set_variable")]
    for f, ps in reaching(chk, [STRAT], pred, roots, lambda g: frame_paths(chk, g)):
        for p in ps:
            if id(f) in exits:
                continue
            if id(f) not in done and f.cls is not None and f.cls.qual != f"{STRAT}.AnsibleStackFrame":
                check_removals(chk, p, f)
                chk.must(not changes(p.events, "stack_frames"), "only-tasks-change-the-stack", f, "the stack only changes when a task starts or ends", p)
                chk.must(not [c for c in dict_changes(p, "stackframes")], "only-tasks-change-the-stack", f, "the stack only changes when a task starts or ends", p)
            for e in sets(p.events, "stackframes") + sets(p.events, "stack_frames") + sets(p.events, "variables"):
                made = e.func is not None and e.func.name == "__init__"
                chk.must(made, "nothing-else-removed", e, "frames and variables are only removed one by one", p)
            own = [c for c in changes(p.events, "variables") if c not in dict_changes(p, "variables") and c[3].kind != "setattr"]
            for w, key, value, e in dict_changes(p, "variables"):
                if w != "add":
                    continue
                v_ += 1
                new = new_of(p, value) if value is not None else None
                fr = new.arg(1, "stackframe") if new is not None else None
                ok = fr is not None and any(c[0] == "add" and same(c[2], key) and same(owner(c[3]), fr) for c in own)
                chk.must(ok, "variable-belongs-to-its-frame", e, "a variable is one of its frame, and goes with it", p)
            for w, key, value, e in own:
                chk.must(w == "add", "nothing-else-removed", e, "a frame's variables are only forgotten with it", p)
    chk.floor(v_, 4, "variables that become known")
    # --- what the client sees
    q = f"{STATE}.get_stacktrace"
    req = mk("param", chk.program.func(q).node.args.args[1].arg)
    told = 0
    for p in returns(slim(chk, q, names=("StackTraceResponse", "StackFrame", "append"), kinds=LOOP_EVENTS)):
        if frame_gone(p):
            continue
        told += 1
        new = message_events(p.events, "StackTraceResponse")
        got = frames_told(p, new[0].arg(None, "stack_frames") or NONE) if len(new) == 1 else None
        ok = got is not None and len(got[0]) == 1 and attr_path(got[0][0])[1][-1:] == ["stack_frames"] and one_thread(unver(got[0][0]).a[0], req.a[0])
        turned = bool(new) and "reversed" in show(new[0].arg(None, "stack_frames") or NONE) or any(x.recv is not None and "reversed" in show(x.recv) for x in p.events if x.kind in ("loop", "loopzero"))
        ok = ok and (turned is (True not in order))
        chk.must(ok, "whole-stack-told", q, "the frames of the thread are told, innermost first", p)
        for v in got[1] if got else ():
            x = new_of(p, v)
            ok = x is not None and tail(x.callee) == "StackFrame" and {"stackframes", "stack_frames"} <= names_in(x.arg(0, "id"))
            chk.must(ok, "whole-stack-told", q, "the frames of the thread are told", p)
    chk.floor(told, 2, "ways of telling the stack")


def frames_told(p: Path, v: T) -> tuple[list[T], list[T], list[Ev]] | None:
    """What the list of frames is made of, without the ones that have been removed."""
    x = unver(v)
    if x.k == "comp" and x.a[3] and len(x.a[2]) == 1 and all(there(c) for c in x.a[3]):
        inner = unver(x.a[2][0])
        if inner.k == "comp" and not inner.a[3] and len(inner.a[2]) == 1:
            return [base_of(inner.a[2][0])], [x.a[1]], []
        if not any("stackframes" in names_in(c) and "get" in show(c) for c in x.a[3]):
            return None
        return [base_of(inner)], [x.a[1]], []
    return listing(p, v)


def there(c: T) -> bool:
    """A condition that holds for a frame that has not been removed."""
    if is_op(c, "not"):
        return is_op(c.a[1], "isnone")
    return is_op(c, "truthy") or is_op(c, "in") and "stackframes" in names_in(c.a[2])


def frame_gone(p: Path) -> bool:
    """A frame has been removed by a thread that is running."""
    for k, v in p.pc.items():
        if is_op(k, "truthy", "isnone"):
            x = unver(k.a[1])
            if (x.k == "call" and tail(str(x.a[0])) == "get" or is_op(x, "get")) and "stackframes" in names_in(x) and v is is_op(k, "isnone"):
                return True
        if is_op(k, "in") and not v and "stackframes" in names_in(k.a[2]):
            return True
    return False


def include_fact(p: Path) -> bool | None:
    res = None
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "in") and INCLUDES in show(q.a[2]) and "action" in names_in(q.a[1]):
            res = v
        elif is_op(q, "isa") and "TaskInclude" in show(q):
            res = v
    return res


def empties(p: Path) -> bool:
    """The last thing that is known about the stack is that it is empty."""
    res = False
    for k, v in p.pc.items():
        if is_op(k, "truthy") and attr_path(k.a[1])[1][-1:] == ["stack_frames"]:
            res = not v
    return res


def check_ancestors(chk: Check, p: Path, k: T, task: T, f) -> None:
    """The set a frame's task is looked up in is that of everything that includes the task."""
    q = plain(k)
    direct = mk("attr", mk("attr", task, "_parent", ()), "_uuid", ())
    if is_op(q, "eq") and any(same(x, direct) for x in q.a[1:]):
        # Nothing but a loop over the includes compares with those further out.
        ups = [e for e in p.events if e.kind == "call" and e.name in ("add", "append") and same(e.arg(0) or NONE, direct)]
        nodes = {e.node for e in p.events if e.kind in ("loop", "loopzero")}
        ok = all(e.loops for e in ups) if ups else len(nodes) > 1
        chk.must(ok, "all-includes-count", ups[0] if ups else f, "the includes of a task are all that is around it", p)
    if not is_op(q, "in"):
        return
    s = unver(q.a[2])
    adds = [e for e in p.events if e.kind == "call" and e.name in ("add", "append") and e.recv is not None and same(e.recv, s)]
    if not adds:
        loops = [e for e in p.events if e.kind in ("loop", "loopzero")]
        whole = s.k != "lit" and ("_parent" in names_in(s) or bool(loops) or s.k in ("call", "opq") or truth_of(p.pc, mk("attr", task, "_parent", ())) is False)
        chk.must(whole, "all-includes-count", f, "the includes of a task are all that is around it", p)
        return
    for e in adds:
        v = unver(e.args[0])
        ok = v.k == "attr" and v.a[1] == "_uuid" and bool(e.loops)
        cur = plain(v.a[0]) if v.k == "attr" else None
        step = cur is not None and (truth_of(p.pc, mk("attr", cur, "_parent", ())) is False or none_of(p.pc, mk("attr", cur, "_parent", ())) is True)
        chk.must(ok and step, "all-includes-count", e, "the includes of a task are all that is around it", p)
