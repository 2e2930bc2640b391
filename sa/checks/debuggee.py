"""The debuggee's side of the session: C09, C20, C22, C23, C37, C38 and C42."""

from __future__ import annotations

import ast
import re

from ..program import AnalysisError
from ..report import Check
from ._util import *
from .adapter import dispatcher, handler
from .strategy import DBG, STATE

RECV_CB = f"{DEBUGGEE}.DAProtocol.on_msg_received"
ENDS_THREAD = ("exit", "_exit", "abort", "quit", "kill")
NOT_EXCEPTION = ("SystemExit", "KeyboardInterrupt", "BaseException", "GeneratorExit")
MAY_FAIL = ("next", "pop", "remove", "index", "join", "result")


def subclass(chk: Check, q: str, base: str) -> bool:
    return q == base or chk.program.is_subclass(q, base)


def queued(events: t.Iterable[Ev]) -> list[Ev]:
    """What is given to the send thread."""
    return [e for e in events if e.kind == "call" and e.name in ("put", "put_nowait")]


def message(e: Ev) -> t.Any:
    return e.sarg(0, "item")


def is_msg_attr(x: t.Any, name: str) -> bool:
    r, n = attr_path(x)
    return isinstance(r, T) and r.k == "param" and n == [name]


def answer_ok(o: t.Any, stem: str) -> str | None:
    """What is wrong with an answer to a request."""
    seq = o.get("request_seq")
    if not (isinstance(seq, T) and is_msg_attr(seq, "seq")):
        return f"the {tail(o.qual)} names {show(seq) if isinstance(seq, T) else seq} instead of the sequence number of the request"
    if tail(o.qual) == "ErrorResponse":
        cmd = o.get("command")
        if not (isinstance(cmd, T) and is_msg_attr(cmd, "command")):
            return "the error names another command"
        return None
    if tail(o.qual) != f"{stem}Response":
        return f"a {stem}Request is answered with a {tail(o.qual)}"
    return None


def responses(chk: Check, p: Path) -> tuple[list[Ev], list[Ev]]:
    """(the answers, what else is queued) of a path."""
    ans, other = [], []
    for e in queued(p.events):
        o = message(e)
        known = isinstance(o, Obj) and o.kind == "obj"
        if known and subclass(chk, o.qual, f"{DAP}.Response") or known and tail(o.qual).endswith("Response"):
            ans.append(e)
        elif known or isinstance(o, T) and o is NONE:
            other.append(e)
        else:
            ans.append(e)
    return ans, other


def c09(chk: Check) -> None:
    """The debuggee answers every request exactly once.

    The recv thread hands every message of the adapter to on_msg_received (C05 to C07 decide the transport).
    Methods of other classes than the strategy's are only known to raise where the source says so.
    """
    disp = dispatcher(chk, DBG)
    table = chk.program.cls(DBG).dispatch_table(tail(disp))
    n = total = 0
    for q, f in table.items():
        cls = tail(q)
        if not cls.endswith("Request"):
            continue
        n += 1
        paths = slim(chk, f, names=("put", "put_nowait") + ENDS_THREAD + MAY_FAIL, kinds=("raise",), pred=lambda e: e.kind == "enter" and e.callee.startswith(STRAT))
        for p in paths:
            total += 1
            ans, _ = responses(chk, p)
            for e in p.events:
                if e.kind == "call" and e.name in ENDS_THREAD and e.callee.split(".")[0] in ("sys", "os", "builtins", "exit", "quit"):
                    chk.must(False, "only-exceptions", e, f"handling a {cls} ends the process", p)
                if e.kind == "raise":
                    chk.must(tail(e.callee) not in NOT_EXCEPTION, "only-exceptions", e, f"handling a {cls} raises a {e.callee}, which ends the connection", p)
            if p.flow == "raise":
                chk.must(not ans, "one-answer", ans[0] if ans else f, f"a {cls} that fails later has been answered already", p)
                continue
            if cls == "DisconnectRequest":
                chk.must(not ans, "disconnect-by-adapter", ans[0] if ans else f, "the disconnect request is answered by the debuggee too", p)
                continue
            chk.must(len(ans) == 1, "one-answer", ans[1] if len(ans) > 1 else f, f"a {cls} is answered {len(ans)} times", p)
            for e in ans[:1]:
                o = message(e)
                if not chk.must(isinstance(o, Obj), "own-answer", e, f"a {cls} is answered with {show(o) if isinstance(o, T) else o}", p):
                    continue
                wrong = answer_ok(o, cls[: -len("Request")])
                chk.must(wrong is None, "own-answer", e, wrong or "", p)
                late = [x for x in after(p, e) if x.kind == "enter" or x.kind == "call" and x.name in MAY_FAIL]
                chk.must(not late, "answer-last", late[0] if late else e, f"a {cls} is answered before what can fail is done", p)
    chk.floor(n, 13, "kinds of request the debuggee handles")
    chk.floor(total, 40, "paths of the handlers")
    unsupported(chk, disp)
    failing(chk, disp)


def unsupported(chk: Check, disp: str) -> None:
    """What nothing is registered for is an error as well."""
    f = chk.program.func(disp)
    for p in slim(chk, f, names=("put", "put_nowait"), kinds=("raise",)):
        ans, _ = responses(chk, p)
        ok = p.flow == "raise" and not ans and tail(p.exc or "") not in NOT_EXCEPTION
        if p.flow != "raise":
            ok = len(ans) == 1 and isinstance(message(ans[0]), Obj) and tail(message(ans[0]).qual) == "ErrorResponse" and answer_ok(message(ans[0]), "") is None
        chk.must(ok, "unsupported", ans[0] if ans else f, "a request nothing is registered for is not answered with one error", p)


def failing(chk: Check, disp: str) -> None:
    """Whatever the processing raises becomes the one error response."""
    f = chk.program.func(RECV_CB)
    failed = 0
    for p in slim(chk, f, names=("put", "put_nowait", tail(disp)), kinds=("raise",), mode="try", opaque=[disp]):
        proc = [e for e in p.events if e.callee == disp]
        if not chk.must(len(proc) == 1, "processed-once", proc[1] if len(proc) > 1 else f, f"a message is processed {len(proc)} times", p):
            continue
        msg = plain(proc[0].arg(0, "msg")) if proc[0].arg(0, "msg") is not None else None
        chk.must(isinstance(msg, T) and msg.k == "param", "processed-once", proc[0], "another message is processed", p)
        ans, other = responses(chk, p)
        chk.must(p.flow == "ret", "failure-contained", proc[0], "a request that fails ends the connection", p)
        if not proc[0].raised:
            chk.must(not ans, "error-once", ans[0] if ans else f, "a request that was processed is answered with an error too", p)
            continue
        failed += 1
        if p.flow != "ret":
            continue
        if not chk.must(len(ans) == 1, "error-once", ans[1] if len(ans) > 1 else f, f"a request that fails is answered with {len(ans)} errors", p):
            continue
        o = message(ans[0])
        chk.must(isinstance(o, Obj) and tail(o.qual) == "ErrorResponse", "error-once", ans[0], "a request that fails is not answered with an error", p)
        if isinstance(o, Obj):
            wrong = answer_ok(o, "Error")
            chk.must(wrong is None, "own-answer", ans[0], wrong or "", p)
            ok = o.get("success")
            chk.must(isinstance(ok, T) and ok is FALSE, "own-answer", ans[0], "the error says that the request succeeded", p)
    chk.floor(failed, 1, "paths of a request that fails")


# --- C20 --------------------------------------------------------------------
CALC = f"{DBG}._calculate_breakpoint"
REGISTER = f"{DBG}.register_path_breakpoint"
LINE_BP = "AnsibleLineBreakpoint"


def self_attr(x: t.Any) -> str | None:
    """The name of the attribute of the object itself."""
    r, n = attr_path(base_of(x) if isinstance(x, T) else x)
    return n[0] if isinstance(r, T) and r.k == "param" and r.a[0] == "self" and len(n) == 1 else None


def client_source(x: t.Any) -> bool:
    """The path of the source as the client spells it."""
    x = plain(x)
    if is_op(x, "or"):
        return client_source(x.a[1])
    return isinstance(x, T) and is_path_of(x, ["source", "path"])


def is_path_of(x: T, names: list[str]) -> bool:
    r, n = attr_path(x)
    return isinstance(r, T) and r.k == "param" and r.a[0] != "self" and n == names


def set_paths(chk: Check) -> tuple[t.Any, list[Path]]:
    h = handler(chk, DBG, "SetBreakpointsRequest")

    def pred(e: Ev) -> bool:
        if e.kind in ("loop", "loopend", "loopbreak", "loopzero", "setitem", "delitem"):
            return True
        if e.kind == "setattr":
            return e.recv is not None and unver(e.recv).k == "param"
        return e.kind in ("call", "new") and (e.name in MUTATORS or e.name in ("put", "put_nowait", LINE_BP, "Breakpoint", tail(CALC)))

    return h, slim(chk, h, pred=pred, kinds=("raise",), opaque=[CALC], pins=("truthy", "isnone", "startswith"))


def c20(chk: Check) -> None:
    """Setting breakpoints replaces the breakpoints of that source.

    Which lines a breakpoint covers is decided by C21, that its number is new by C18.
    """
    h, paths = set_paths(chk)
    stored = {self_attr(e.recv) for p in paths for e in p.events if e.kind == "setitem" and obj_is(e.sarg(1), LINE_BP)} - {None}
    if len(stored) != 1:
        chk.must(bool(stored), "stored", h, "no breakpoint is ever stored")
        if not stored:
            return
        raise AnalysisError(f"anchor vanished: breakpoints are stored in {sorted(stored)}")
    where = stored.pop()
    kinds: dict[str, int] = {}
    for p in paths:
        if p.flow != "ret":
            continue
        ans = [e for e in queued(p.events) if tail(getattr(message(e), "qual", "")) == "SetBreakpointsResponse"]
        if not ans:
            continue
        check_set(chk, h, p, ans[-1], where, kinds)
    for k in ("modified", "unloaded", "loaded", "none"):
        chk.floor(kinds.get(k, 0), 1, f"paths with {k} breakpoints")
    other_changes(chk, h, where)


def replaced(p: Path, where: str) -> tuple[Ev | None, T | None, str | None]:
    """What takes the earlier breakpoints of the source away: (event, the path compared with, the field that is compared)."""
    for op, key, val, e in changes(p.events, where):
        if op == "replace" and val is not None and e.kind == "setattr":
            v = unver(val)
            if v.k == "comp" and len(v.a[3]) == 1 and [self_attr(x) for x in v.a[2]] == [where] and kept_pair(v.a[1], v.a[2][0]):
                c = v.a[3][0]
                neg = is_op(c, "not")
                c = c.a[1] if neg else c
                if is_op(c, "truthy") and not neg:
                    return (e, const(""), ".".join(attr_path(c.a[1])[1]))
                if is_op(c, "eq") and neg or is_op(c, "ne"):
                    return (e, *compared(c))
            # A dict that is filled in a loop over the earlier ones.
            adds = [x for x in before(p, e) if x.kind == "setitem" and unver(x.recv) is v]
            if v.k == "lit" and len(adds) <= 1:
                lp = [x for x in before(p, e) if x.kind in ("loop", "loopzero") and self_attr(x.recv) == where]
                if lp and (lp[-1].kind == "loopzero" or not broken(p, lp[-1])):
                    want = False if adds else True
                    for k, b in p.pc.items():
                        if is_op(k, "eq") and b is want and compared(k)[1] is not None:
                            return (e, *compared(k))
                        if is_op(k, "truthy") and b is not want and attr_path(k.a[1])[1] and attr_path(k.a[1])[0].k in ("item", "elem"):
                            return (e, const(""), ".".join(attr_path(k.a[1])[1]))
                    if lp[-1].kind == "loopzero":
                        return e, None, None
        if op == "remove":
            lp = [x for x in before(p, e) if x.kind == "loop" and x.loops == e.loops]
            if lp and not broken(p, lp[-1]) and key is not None:
                for k, b in p.pc.items():
                    if is_op(k, "eq") and b and compared(k)[1] is not None:
                        return (e, *compared(k))
                    if is_op(k, "truthy") and not b and compared(mk("op", "eq", k.a[1], const("")))[1] is not None:
                        return e, const(""), compared(mk("op", "eq", k.a[1], const("")))[1]
                path = chosen(p, lp[-1].recv, where)
                if path is not None:
                    return e, path, "source_path"
    return None, None, None


def chosen(p: Path, x: T, where: str) -> T | None:
    """The breakpoints of the source, picked out first: the path they are of."""
    c = base_of(x)
    if c.k != "comp" or len(c.a[3]) != 1 or [self_attr(y) for y in c.a[2]] != [where]:
        return None
    k = c.a[3][0]
    if is_op(k, "eq"):
        path, field = compared(k)
    elif is_op(k, "not") and is_op(k.a[1], "truthy"):
        path, field = const(""), ".".join(attr_path(k.a[1].a[1])[1])
    else:
        return None
    return path if field == "source_path" and path is not None and client_source_or_empty(p, path) else None


def kept_pair(v: t.Any, it: t.Any) -> bool:
    """Every entry keeps its number."""
    v = plain(v)
    if isinstance(v, tuple):
        v = mk("tuple", *v)
    if not isinstance(v, T) or v.k != "tuple" or len(v.a) != 2:
        return False
    k, x = v.a
    return x.k == "item" and plain(x.a[1]) is plain(k) or x.k == "item" and x.a[1] is k or attr_path(k)[1][-1:] == ["id"] and root(k) is root(x)


def compared(c: T) -> tuple[T | None, str | None]:
    """A stored breakpoint's field that is compared with something of the request."""
    for a, b in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
        r, n = attr_path(a)
        if n and r.k in ("item", "elem", "each"):
            return plain(b), ".".join(n)
    return None, None


def check_set(chk: Check, h: t.Any, p: Path, ans: Ev, where: str, kinds: dict[str, int]) -> None:
    resp = message(ans)
    lst = resp.get("breakpoints")
    loops = [e for e in p.events if e.kind in ("loop", "loopzero") and is_path_of(base_of(e.recv), ["breakpoints"])]
    rm, path, field = replaced(p, where)
    nothing = [e for e in p.events if e.kind == "loopzero" and (self_attr(e.recv) == where or chosen(p, e.recv, where))]
    if rm is None and not nothing:
        # None of them is of this source.
        skipped = [k for k, b in p.pc.items() if is_op(k, "eq") and not b and compared(k)[1] == "source_path" and client_source(compared(k)[0])]
        skipped += [k for k, b in p.pc.items() if is_op(k, "truthy") and b and compared(mk("op", "eq", k.a[1], const("")))[1] == "source_path"]
        over = [e for e in p.events if e.kind == "loop" and self_attr(e.recv) == where]
        chk.must(bool(skipped) and bool(over) and not broken(p, over[-1]), "replaces-own-source", h, "the earlier breakpoints of the source are not taken away", p)
    elif rm is not None and not nothing:
        ok = field == "source_path" and path is not None and client_source_or_empty(p, path)
        chk.must(ok, "replaces-own-source", rm or h, f"the breakpoints that are taken away are those whose {field} is {show(path) if path is not None else '?'}", p)
    lists = lst if isinstance(lst, T) else getattr(lst, "term", None)
    got = listing(p, lists) if lists is not None else None
    if got is not None and not got[1]:
        zero = [e for e in loops if e.kind == "loopzero"]
        got = ([base_of(zero[-1].recv)], [], zero) if zero else got
    if not chk.must(got is not None, "one-each", ans, "the answer is not one breakpoint for each requested one", p):
        return
    bases, values, adds = got
    bad = [e for e in p.events if e.kind == "call" and e.recv is not None and unver(e.recv) is unver(lists) and e.name not in ("append", "add")]
    chk.must(not bad, "one-each", bad[0] if bad else ans, "the order of the breakpoints in the answer is changed", p)
    ok = len(bases) == 1 and is_path_of(bases[0], ["breakpoints"])
    if not chk.must(ok, "one-each", ans, f"the answer is made from {', '.join(show(b) for b in bases)}, not from the requested breakpoints", p):
        return
    rev = [e for e in loops if any(is_op(x, "reversed", "sorted", "slice") or isinstance(x, T) and x.k == "slice" for x in walk_term(e.recv))]
    ends = [e for e in loops if e.kind == "loop" and not any(x.kind == "loopend" and x.node is e.node for x in after(p, e))]
    chk.must(not ends, "one-each", ends[0] if ends else ans, "not every requested breakpoint is answered", p)
    chk.must(not rev, "one-each", rev[0] if rev else ans, "the breakpoints are not answered in the order they were requested", p)
    if not values:
        kinds["none"] = kinds.get("none", 0) + 1
        return
    one_breakpoint(chk, h, p, ans, adds, values[0], where, kinds)


def client_source_or_empty(p: Path, x: T) -> bool:
    if client_source(x):
        return True
    return x.k == "const" and x.a[0] == "" and any(is_op(k, "truthy", "isnone") and client_source(k.a[1]) for k in p.pc)


def one_breakpoint(chk: Check, h: t.Any, p: Path, ans: Ev, adds: list[Ev], bp: T, where: str, kinds: dict[str, int]) -> None:
    at = adds[0] if adds else ans
    made = [e for e in p.events if e.res is not None and unver(e.res) is unver(bp) and (e.kind == "new" or e.callee == CALC)]
    if not chk.must(bool(made), "one-each", at, f"what is answered is {show(bp)[:80]}", p):
        return
    m = made[-1]
    names = params_without_self(chk, CALC) if m.callee == CALC else []
    vals = {**dict(zip(names, m.args)), **dict(m.kwargs)} if names else kwargs_of(m, fields_of(chk, "Breakpoint"))
    bid, src = vals.get("bp_id" if names else "id"), vals.get("bp_source" if names else "source")
    if names and (bid is None or src is None):
        raise AnalysisError(f"anchor vanished: the parameters of {CALC}")
    grown = [e for e in p.events if e.kind == "setattr" and e.loops == m.loops and bid is not None and any(plain(y) is plain(bid) or mentions(plain(y), plain(bid)) for y in (e.args[0],) ) or e.kind == "setattr" and bid is not None and plain(e.args[0]) is plain(bid) and e.loops == m.loops]
    chk.must(bid is not None and bool(grown), "new-number", m, "the number of the breakpoint is not a new one for each requested breakpoint", p)
    chk.must(src is not None and is_path_of(src, ["source"]), "own-source", m, f"the source of the answered breakpoint is {show(src) if src is not None else 'not set'}", p)
    stores = [(k, v, e) for op, k, v, e in changes(p.events, where) if op == "add" and e.loops == at.loops and e.kind == "setitem"]
    modified = None
    for k, b in p.pc.items():
        q = plain(k)
        if is_op(q, "truthy") and is_path_of(q.a[1], ["source_modified"]):
            modified = b
        elif isinstance(q, T) and is_path_of(q, ["source_modified"]):
            modified = b
        elif is_op(q, "eq", "isnone") and any(isinstance(x, T) and is_path_of(x, ["source_modified"]) for x in q.a[1:]):
            x = next(x for x in q.a[1:] if isinstance(x, T))
            modified = b if is_op(q, "eq") and TRUE in q.a[1:] else modified if is_op(q, "isnone") and not b else False
    if modified is not False:
        kinds["modified"] = kinds.get("modified", 0) + 1
        ver = vals.get("verified")
        chk.must(not names and ver is FALSE, "modified-unverified", m, "a breakpoint of a source that is modified in the client is answered as if it was not", p)
        chk.must(not stores, "modified-not-kept", stores[0][2] if stores else m, "a breakpoint of a modified source takes effect", p)
        return
    loaded = not unloaded(p)
    kinds["loaded" if loaded else "unloaded"] = kinds.get("loaded" if loaded else "unloaded", 0) + 1
    if not loaded:
        ok = names or vals.get("verified") is FALSE
        chk.must(ok and not names, "unloaded-unverified", m, "a breakpoint of a file that is not loaded is answered as verified", p)
    else:
        chk.must(bool(names) or any(x.name == tail(CALC) for x in p.events) or m.kind == "new", "resolved", m, "the breakpoint is not resolved against the lines of the file", p)
        line = vals.get("line")
        if names:
            chk.must(line is not None and attr_path(line)[1] == ["line"] and is_requested(root(line)), "resolved", m, f"the breakpoint is resolved for line {show(line) if line is not None else '?'}", p)
    if not chk.must(len(stores) == 1, "stored", m, f"a requested breakpoint is stored {len(stores)} times", p):
        return
    key, val, e = stores[0]
    o = e.sarg(1)
    if not chk.must(obj_is(o, LINE_BP), "stored", e, f"{show(val)[:60]} is stored as the breakpoint", p):
        return
    chk.must(key is not None and bid is not None and plain(key) is plain(bid), "stored", e, f"the breakpoint is stored as number {show(key)} but answered as {show(bid) if bid is not None else '?'}", p)
    chk.must(same(o.get("id"), bid) if bid is not None else False, "stored", e, "the stored breakpoint has another number than the answered one", p)
    sb, b2, sp = o.get("source_breakpoint"), o.get("breakpoint"), o.get("source_path")
    b2 = b2.term if isinstance(b2, Obj) else b2
    chk.must(isinstance(sb, T) and is_requested(sb), "stored", e, "the stored breakpoint is not the requested one", p)
    chk.must(isinstance(b2, T) and unver(b2) is unver(bp), "stored", e, "the resolution that is stored is not the one that is answered", p)
    chk.must(isinstance(sp, T) and client_source_or_empty(p, plain(sp)), "stored", e, f"the breakpoint is stored for the source {show(sp)}", p)
    chk.must(isinstance(o.get("source"), (T, Obj)) and is_path_of(getattr(o.get("source"), "term", o.get("source")), ["source"]), "stored", e, "the breakpoint is stored for another source", p)
    chk.must(p.index(e) < p.index(ans), "answer-last", ans, "the answer is sent before the breakpoints are in effect", p)


def unloaded(p: Path) -> bool:
    """Nothing is known about the lines of the file."""
    res = False
    for k, b in p.pc.items():
        if is_op(k, "truthy", "isnone") and any(isinstance(y, T) and (is_op(y, "get") or y.k == "item" or y.k == "attr" and y.a[1] == "_source_info") for y in walk_term(k.a[1])) and "_source_info" in names_in(k):
            res = res or (b is is_op(k, "isnone"))
        elif is_op(k, "in") and "_source_info" in names_in(k.a[2]) and not b:
            res = True
    return res


def is_requested(x: t.Any) -> bool:
    x = plain(x)
    for y in (x, base_of(x.a[0]) if x.k in ("elem", "each", "item") else x):
        pass
    return isinstance(x, T) and any(isinstance(y, T) and y.k == "attr" and is_path_of(y, ["breakpoints"]) for y in walk_term(x)) and not is_path_of(x, ["breakpoints"])


def params_without_self(chk: Check, q: str) -> list[str]:
    f = chk.program.find_func(q)
    return [a.arg for a in f.node.args.args if a.arg not in ("self", "cls")] if f is not None else []


def fields_of(chk: Check, cls: str) -> list[str]:
    q = next((q for q in chk.program.classes if q == cls or tail(q) == cls and q.startswith(DAP)), None)
    if q is None:
        raise AnalysisError(f"anchor vanished: {cls}")
    return [n.target.id for n in chk.program.classes[q].node.body if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)]


def other_changes(chk: Check, h: t.Any, where: str) -> None:
    """Nothing else adds to or takes from the breakpoints, but for the end of the session."""
    n = 0
    for f, node in sites(chk.program, [DEBUGGEE, STRAT, CALLBACK, f"{PU}._breakpoints"], mutates(where)):
        if f is h or f.qual == h.qual:
            n += 1
            continue
        if isinstance(node, ast.Attribute):
            st = next((x for x in ast.walk(f.node) if isinstance(x, (ast.Assign, ast.AnnAssign)) and any(y is node for y in ast.walk(x))), None)
            v = st.value if st is not None else None
            empty = isinstance(v, ast.Dict) and not v.keys or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "dict" and not v.args and not v.keywords
            chk.must(empty, "only-requests", f"{f.qual}", f"{f.qual} changes which breakpoints are in effect")
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "clear":
            chk.must(True, "only-requests", f, "")
        else:
            helper = f.qual.startswith(DBG + ".") and f.name.startswith("_") and called_by(chk, f, h)
            chk.must(helper, "only-requests", f"{f.qual}", f"{f.qual} changes which breakpoints are in effect")
            n += 1
    chk.floor(n, 1, "changes of the breakpoints")


def called_by(chk: Check, f: t.Any, h: t.Any) -> bool:
    """A helper that only the handler uses."""
    users = {u.qual for u, _ in sites(chk.program, [DEBUGGEE, STRAT, CALLBACK, f"{PU}._breakpoints"], lambda n: isinstance(n, ast.Attribute) and n.attr == f.name) if u.qual != f.qual}
    return users <= {h.qual}


# --- C22 --------------------------------------------------------------------
BLOCKS = f"{PU}._breakpoints.register_block_breakpoints"
PLAYS = f"{PU}._breakpoints.register_play_breakpoints"
SECTIONS = {"block", "rescue", "always"}
LOOPS = ("loop", "loopend", "loopbreak", "loopzero")


def registrations(events: t.Iterable[Ev]) -> list[Ev]:
    return [e for e in events if e.callee == REGISTER and e.kind == "call"]


def reg_args(chk: Check, e: Ev) -> dict[str, T]:
    names = params_without_self(chk, REGISTER)
    if len(names) != 3:
        raise AnalysisError(f"anchor vanished: the parameters of {REGISTER}")
    vals = {**dict(zip(names, e.args)), **dict(e.kwargs)}
    return dict(zip(("path", "line", "type"), (vals.get(n) for n in names)))


def path_of_elem(x: T, elem_pred: t.Callable[[T], bool]) -> bool:
    """The location ansible gives for the element."""
    return any(isinstance(y, T) and y.k == "call" and tail(str(y.a[0])) == "get_path" and y.a[1] is not None and elem_pred(plain(y.a[1])) for y in walk_term(x))


def location(chk: Check, e: Ev, elem_pred: t.Callable[[T], bool], what: str, p: Path) -> None:
    """path:line is taken apart at the last colon."""
    v = reg_args(chk, e)
    for k, want in (("path", (0,)), ("line", (1, -1, 2))):
        x = v[k]
        if not chk.must(x is not None and path_of_elem(plain(x), elem_pred), "location", e, f"the {k} of {what} is {show(x)[:80] if x is not None else '?'}", p):
            continue
        x = plain(x)
        first = [y for y in walk_term(x) if is_op(y, "split", "partition")]
        chk.must(not first, "location", e, f"the {k} of {what} is taken from before or after the first colon", p)
        idx = [y.a[1].a[0] for y in walk_term(x) if isinstance(y, T) and y.k == "item" and isinstance(y.a[1], T) and y.a[1].k == "const" and is_op(unver(y.a[0]), "rsplit", "rpartition")]
        chk.must(all(i in want for i in idx), "location", e, f"the {k} of {what} is the other part of its location", p)


def contents(p: Path, x: T, depth: int = 0) -> set[str]:
    """The attributes a container is made of, those of what it was filled with included."""
    names = names_in(x)
    for y in walk_term(x):
        if isinstance(y, T) and y.k == "lit" and depth < 4:
            c = p.state.cont.get(y)
            for i in c[1] if c is not None else ():
                for j in i if isinstance(i, tuple) else (i,):
                    if isinstance(j, T):
                        names |= contents(p, j, depth + 1)
    return names


def over_sections(p: Path, lp: Ev) -> set[str]:
    """The sections of a block that a loop goes over."""
    names = contents(p, lp.recv) & SECTIONS
    parts = {unver(y) for y in walk_term(lp.recv) if isinstance(y, T)}
    for e in before(p, lp):
        if e.kind in ("call", "setattr") and e.name in ("extend", "append", "__iadd__", "insert") and e.recv is not None and unver(e.recv) in parts and e.args:
            names |= names_in(e.args[-1]) & SECTIONS
    return names


def whole(x: T) -> bool:
    return not any(isinstance(y, T) and (y.k == "slice" and any(isinstance(b, T) and b is not NONE for b in y.a[1:3]) or is_op(y, "islice", "filter", "reversed")) for y in walk_term(x))


def c22(chk: Check) -> None:
    """Breakpoint locations cover every task.

    ansible's compile() lists the blocks of a play, get_handler_blocks() and get_task_blocks() those of a role.
    A role that is included at run time is registered when its first task starts, before that task can stop.
    """
    register_blocks(chk)
    register_plays(chk)
    who_registers(chk)
    included_roles(chk)
    resolution(chk)


def register_blocks(chk: Check) -> None:
    f = chk.program.func(BLOCKS)
    names = ("register_path_breakpoint", f.name, "extend", "append", "insert", "get_path")
    n = done = 0
    for p in slim(chk, f, names=names, kinds=LOOPS + ("raise",), opaque=[REGISTER], pins=("isa", "truthy", "isnone", "eq")):
        outer = [e for e in p.events if e.kind == "loop" and root(base_of(e.recv)).k == "param" and e.callee != "comprehension" and len(e.loops) <= 1]
        if not chk.must(p.flow == "ret", "every-task", f, "the registration of the blocks ends early", p) or not outer:
            continue
        n += 1
        for lp in [e for e in p.events if e.kind == "loop" and e.callee != "comprehension"]:
            full = any(x.kind == "loopend" and x.node is lp.node for x in after(p, lp)) and not broken(p, lp)
            chk.must(full, "every-task", lp, "not every block and task is registered", p)
            chk.must(whole(lp.recv), "every-task", lp, f"only some of {show(lp.recv)[:60]} are registered", p)
        blocks = base_of(outer[-1].recv)

        def is_block(x: T) -> bool:
            return elem_of(x, blocks)

        pathless = path_fact(p, is_block)
        regs = [e for e in registrations(p.events) if e.loops == outer[-1].loops]
        mine = [e for e in regs if path_of_elem(plain(reg_args(chk, e)["path"]), is_block)]
        if pathless is not True:
            chk.must(len(mine) == 1, "explicit-block", mine[1] if len(mine) > 1 else f, f"the location of an explicit block is registered {len(mine)} times", p)
        for e in mine:
            ty = reg_args(chk, e)["type"]
            chk.must(ty is not None and ty.k == "const" and ty.a[0] == 0, "explicit-block", e, "an explicit block is registered as a location to stop at", p)
            location(chk, e, is_block, "a block", p)
        covered: set[str] = set()
        for e in p.events:
            if e.kind in ("loop", "loopzero") and e is not outer[-1]:
                covered |= over_sections(p, e)
        # A section that is known to be empty needs no loop.
        for k, v in p.pc.items():
            if is_op(k, "truthy") and not v and attr_path(k.a[1])[1][-1:] and attr_path(k.a[1])[1][-1] in SECTIONS and is_block(root(k.a[1])):
                covered.add(attr_path(k.a[1])[1][-1])
        chk.must(covered == SECTIONS, "every-section", f, f"the tasks of the {', '.join(sorted(SECTIONS - covered))} section are not registered", p)
        for lp in [e for e in p.events if e.kind == "loop" and e is not outer[-1] and over_sections(p, e) and e.callee != "comprehension"]:
            done += one_task(chk, p, lp, f)
    chk.floor(n, 4, "paths over a block")
    chk.floor(done, 3, "paths over a task")


def path_fact(p: Path, elem_pred: t.Callable[[T], bool]) -> bool | None:
    """Whether the element is known to have no location."""
    for k, v in p.pc.items():
        if is_op(k, "truthy", "isnone") and isinstance(k.a[1], T) and unver(k.a[1]).k == "call" and path_of_elem(k.a[1], elem_pred):
            return v if is_op(k, "isnone") else not v
    return None


def one_task(chk: Check, p: Path, lp: Ev, f: t.Any) -> int:
    def is_task(x: T) -> bool:
        return x.k in ("elem", "item") and bool(contents(p, x) & SECTIONS) or elem_of(x, base_of(lp.recv))

    block = None
    for k, v in p.pc.items():
        if is_op(k, "isa") and is_task(plain(k.a[1])) and tail(str(k.a[2].a[0])) == "Block":
            block = v
    inner = [e for e in p.events if e.loops == lp.loops]
    deeper = [e for e in inner if e.callee == BLOCKS and e.kind == "call"]
    regs = registrations(inner)
    if block is True:
        ok = len(deeper) == 1 and not regs
        if chk.must(ok, "nested-block", lp, "the tasks of a block within a block are not registered", p):
            a = deeper[0].args[-1]
            c = p.state.cont.get(unver(a))
            items = [i[0] if isinstance(i, tuple) else i for i in c[1]] if c is not None else []
            chk.must(is_task(plain(a)) or items and all(is_task(plain(i)) for i in items if isinstance(i, T)), "nested-block", deeper[0], f"{show(a)} is registered instead of the block within the block", p)
        return 1
    if block is None and len(deeper) == 1 and not regs:
        return 1
    if path_fact(p, is_task) is True:
        chk.must(not regs, "every-task", lp, "a task without a location is registered", p)
        return 1
    chk.must(block is False, "nested-block", lp, "a block within a block is registered as a task", p)
    if chk.must(len(regs) == 1, "every-task", lp, f"a task is registered {len(regs)} times", p):
        ty = reg_args(chk, regs[0])["type"]
        chk.must(ty is not None and ty.k == "const" and ty.a[0] == 1, "every-task", regs[0], "a task is registered as a location no breakpoint can stop at", p)
        location(chk, regs[0], is_task, "a task", p)
    return 1


def register_plays(chk: Check) -> None:
    f = chk.program.func(PLAYS)
    n = 0
    for p in slim(chk, f, names=("register_path_breakpoint", tail(BLOCKS), "extend", "compile", "get_handler_blocks"), kinds=LOOPS + ("raise",), opaque=[REGISTER, BLOCKS]):
        chk.must(p.flow == "ret", "every-play", f, "the registration of the plays ends early", p)
        loops = [e for e in p.events if e.kind == "loop" and e.callee != "comprehension"]
        outer = [e for e in loops if root(base_of(e.recv)).k == "param" and len(e.loops) <= 1 and not attr_path(base_of(e.recv))[1]]
        if not outer:
            continue
        n += 1
        plays = base_of(outer[-1].recv)
        for lp in loops:
            full = any(x.kind == "loopend" and x.node is lp.node for x in after(p, lp)) and not broken(p, lp)
            chk.must(full and whole(lp.recv), "every-play", lp, "not every play and role is registered", p)
        for e in registrations(p.events):
            ty = reg_args(chk, e)["type"]
            chk.must(ty is not None and ty.k == "const" and ty.a[0] == 1, "every-play", e, "a play is registered as a location no breakpoint can stop at", p)
            location(chk, e, lambda x: elem_of(x, plays), "a play", p)
        given = [e for e in p.events if e.callee == BLOCKS and e.kind == "call"]
        terms = [a for e in given for a in e.args[1:]] + [a for e in p.events if e.kind == "call" and e.name in ("extend", "__iadd__") for a in e.args]
        shown = [e.sarg(i) for e in given for i in range(1, len(e.args))]
        inner = [x for o in shown if isinstance(o, Obj) and o.kind == "list" for x in o.fields if isinstance(x, T) and x.k != "rest"]
        terms += [x.a[0] if x.k == "star" else x for x in inner]
        chk.must(all(whole(a) for a in terms), "every-play", given[0] if given else f, "only some blocks of a play are registered", p)
        text = [y for a in terms for y in walk_term(a)]
        has = {tail(str(y.a[0])) for y in text if isinstance(y, T) and y.k == "call"} | {y.a[1] for y in text if isinstance(y, T) and y.k == "attr"}
        # What was collected before the loop over the roles.
        carried = any(isinstance(y, T) and y.k == "hav" for y in text) or any("~" in show(a) for a in terms)
        roles = [e for e in p.events if e.kind in ("loop", "loopzero") and "roles" in names_in(e.recv)]
        in_loop = [e for e in roles if e.kind == "loop" and e.callee != "comprehension"]
        chk.must(bool(given), "every-play", f, "the blocks of a play are not registered", p)
        chk.must("compile" in has or carried and in_loop, "every-play", f, "the tasks of a play are not registered", p)
        chk.must("handlers" in has or carried and in_loop, "every-handler", f, "the handlers of a play are not registered", p)
        chk.must(bool(roles), "every-handler", f, "the handlers of the roles of a play are not registered", p)
        if in_loop:
            chk.must("get_handler_blocks" in has, "every-handler", f, "the handlers of the roles of a play are not registered", p)
    chk.floor(n, 2, "paths over a play")


def who_registers(chk: Check) -> None:
    """The plays are registered when the playbook starts, what is included before it is run."""
    f = chk.program.func(f"{CALLBACK}.CallbackModule.v2_playbook_on_start")
    n = 0
    for p in slim(chk, f, names=(tail(PLAYS), "get_plays", "wait_for_config_done", "start"), kinds=("raise",), opaque=[PLAYS, f"{DBG}.start", f"{DBG}.wait_for_config_done"]):
        if p.flow != "ret":
            continue
        n += 1
        regs = [e for e in p.events if e.callee == PLAYS]
        if chk.must(len(regs) >= 1, "plays-registered", f, "the plays of a playbook are not registered when it starts", p):
            ok = any(is_call_term(y, "get_plays") for a in regs[0].args for y in walk_term(a)) and all(whole(a) for a in regs[0].args)
            chk.must(ok, "plays-registered", regs[0], "only some plays of the playbook are registered", p)
    chk.floor(n, 1, "paths of the start of a playbook")
    n = 0
    for q, c in chk.program.classes.items():
        if c.module.name != STRAT or "_queue_task" not in c.methods:
            continue
        m = c.methods.get("_load_included_file")
        if not chk.must(m is not None, "included-registered", q, f"{tail(q)} does not register the included files"):
            continue
        for p in slim(chk, m, names=(tail(BLOCKS), "_load_included_file"), kinds=("raise",), opaque=[BLOCKS], mode="none"):
            if p.flow != "ret":
                continue
            n += 1
            sup = [e for e in p.events if e.kind == "call" and e.name == "_load_included_file"]
            regs = [e for e in p.events if e.callee == BLOCKS]
            if not chk.must(len(sup) == 1, "included-registered", m, f"an included file is loaded {len(sup)} times", p):
                continue
            empty = truth_of(p.pc, sup[0].res) is False
            chk.must(empty or bool(regs) and any(plain(base_of(a)) is plain(sup[0].res) and whole(a) for e in regs for a in e.args), "included-registered", m, "the tasks of an included file are not registered", p)
            chk.must(same(p.value, sup[0].res), "included-registered", m, "the tasks of an included file are changed", p)
    chk.floor(n, 1, "strategies that load included files")


def is_call_term(x: t.Any, name: str) -> bool:
    return isinstance(x, T) and x.k == "call" and tail(str(x.a[0])) == name


def included_roles(chk: Check) -> None:
    f = chk.program.func(f"{STATE}.start_task")
    role = n = 0
    for p in slim(chk, f, names=(tail(BLOCKS), "get_task_blocks", "get_handler_blocks", "get_breakpoint", "next_stackframe_id"), kinds=("raise",), opaque=[BLOCKS, f"{DBG}.get_breakpoint"], pins=("in",)):
        if p.flow != "ret":
            continue
        n += 1
        inc = [v for k, v in p.pc.items() if is_op(k, "in") and "_ACTION_INCLUDE_ROLE" in show(k.a[2])]
        own = [v for k, v in p.pc.items() if is_op(k, "truthy", "isnone") and attr_path(k.a[1])[1] == ["_role"] for v in [v is is_op(k, "truthy")]]
        if not inc or not inc[-1] or own and not own[-1]:
            continue
        role += 1
        regs = [e for e in p.events if e.callee == BLOCKS]
        has = {tail(str(y.a[0])) for e in regs for a in e.args for y in walk_term(a) if isinstance(y, T) and y.k == "call"}
        stop = [e for e in p.events if e.name == "get_breakpoint"]
        for what, n2 in (("get_task_blocks", "tasks"), ("get_handler_blocks", "handlers")):
            chk.must(what in has, "included-role", f, f"the {n2} of a role that is included are not registered", p)
        for e in regs:
            chk.must(not stop or p.index(e) < p.index(stop[0]), "included-role", e, "an included role is registered after its first task could stop", p)
    chk.floor(n, 4, "paths of the start of a task")
    if not role:
        chk.must(False, "included-role", f, "the tasks of a role that is included are never registered")


RESOLVED = ("verified", "line", "end_line")


def resolution(chk: Check) -> None:
    """New locations are stored and the breakpoints they change reported."""
    f = chk.program.func(REGISTER)
    changed = same_ = 0

    def pred(e: Ev) -> bool:
        return e.kind in LOOPS + ("setitem", "raise", "acquire", "release", "setattr") or e.kind in ("call", "new") and e.name in ("extend", "append", "setdefault", "put", "put_nowait", "BreakpointEvent", tail(CALC), "insert", "pop")

    args = [a.arg for a in f.node.args.args][1:4]
    for p in slim(chk, f, pred=pred, kinds=(), opaque=[CALC], pins=("eq",)):
        if not chk.must(p.flow == "ret", "stored-location", f, "a location is not registered", p):
            continue
        path_p, line_p, type_p = (mk("param", a) for a in args)
        puts = [e for e in p.events if e.kind == "setitem" and same(e.args[1], type_p) and not e.loops]
        ok = len(puts) == 1 and same(puts[0].args[0], line_p)
        if not chk.must(ok, "stored-location", puts[0] if puts else f, "the location is not stored at its line", p):
            continue
        lines = plain(puts[0].recv)
        chk.must("_source_info" in names_in(lines) and mentions(lines, path_p) or any(e.kind == "setitem" and e.recv is not None and "_source_info" in names_in(e.recv) and same(e.args[0], path_p) and same(e.args[1], puts[0].recv) for e in p.events), "stored-location", puts[0], "the location is not stored for its file", p)
        grown(chk, p, f, lines, line_p, puts[0])
        loops = [e for e in p.events if e.kind in ("loop", "loopzero") and e.callee != "comprehension" and over_breakpoints(e.recv, path_p)]
        if not chk.must(bool(loops), "re-resolved", f, "the breakpoints of the file are not resolved again", p):
            continue
        lp = loops[-1]
        if lp.kind == "loopzero":
            continue
        full = any(x.kind == "loopend" and x.node is lp.node for x in after(p, lp)) and not broken(p, lp)
        chk.must(full, "re-resolved", lp, "not every breakpoint of the file is resolved again", p)
        for_file = None
        for k, v in p.pc.items():
            if is_op(k, "eq") and path_p in (plain(k.a[1]), plain(k.a[2])):
                o = plain(k.a[2]) if plain(k.a[1]) is path_p else plain(k.a[1])
                r, n = attr_path(o)
                if r.k in ("item", "elem"):
                    chk.must(n == ["actual_path"], "re-resolved", lp, f"the breakpoints that are resolved again are those whose {'.'.join(n)} is the file", p)
                    for_file = v
        calc = [e for e in p.events if e.callee == CALC or e.kind == "new" and e.name == "Breakpoint"]
        sent = queued(p.events)
        if for_file is False:
            chk.must(not sent and not [e for e in p.events if e.kind == "setattr" and e.loops], "re-resolved", sent[0] if sent else f, "a breakpoint of another file is changed", p)
            continue
        chk.must(for_file is True, "re-resolved", lp, "the breakpoints of other files are resolved against the lines of this file", p)
        if not chk.must(bool(calc), "re-resolved", lp, "a breakpoint of the file is not resolved again", p):
            continue
        new = calc[-1]
        if new.callee == CALC:
            a = list(new.args) + [v for _, v in new.kwargs.items()]
            paths = [attr_path(x)[1] for x in a]
            chk.must(["id"] in paths and ["source"] in paths and ["source_breakpoint", "line"] in paths, "re-resolved", new, "the breakpoint is resolved for something else than what was requested", p)
            chk.must(p.index(puts[0]) < p.index(new), "re-resolved", new, "the breakpoint is resolved before the new location is known", p)
        diff = difference(p, new)
        if diff is None:
            chk.must(bool(sent), "changes-reported", new, "a change of the resolution of a breakpoint is not always reported", p)
        if diff is True or diff is None and sent:
            changed += 1
            if chk.must(len(sent) == 1, "changes-reported", sent[1] if len(sent) > 1 else new, f"a changed breakpoint is reported {len(sent)} times", p):
                o = message(sent[0])
                ok = obj_is(o, "BreakpointEvent") and isinstance(o.get("reason"), T) and o.get("reason").k == "const" and o.get("reason").a[0] == "changed"
                b = o.get("breakpoint") if isinstance(o, Obj) else None
                b = b.term if isinstance(b, Obj) else b
                chk.must(ok and isinstance(b, T) and same(b, new.res), "changes-reported", sent[0], "what is reported is not the new resolution", p)
            chk.must(diff is True, "changes-reported", sent[0] if sent else new, "a breakpoint that did not change is reported", p)
            kept = [e for e in p.events if e.kind == "setattr" and e.name == "breakpoint" and same(e.args[0], new.res)]
            chk.must(bool(kept), "changes-kept", new, "the new resolution of the breakpoint is not used", p)
        elif diff is False:
            same_ += 1
            chk.must(not sent, "changes-reported", sent[0] if sent else new, "a breakpoint that did not change is reported", p)
    chk.floor(changed, 1, "paths of a changed breakpoint")
    chk.floor(same_, 1, "paths of an unchanged breakpoint")


def over_breakpoints(x: t.Any, path_p: T) -> bool:
    """A walk of the breakpoints, or of those of the file."""
    if not isinstance(x, T):
        return False
    if self_attr(x) == "_breakpoints":
        return True
    x = plain(x)
    if x.k != "comp" or [self_attr(y) for y in x.a[2]] != ["_breakpoints"]:
        return False
    el = plain(x.a[1])
    for c in x.a[3]:
        c = plain(c)
        sides = [plain(y) for y in c.a[1:3]] if is_op(c, "eq") else []
        o = [y for y in sides if y is not path_p]
        if len(sides) != 2 or len(o) != 1 or attr_path(o[0])[1] != ["actual_path"] or attr_path(o[0])[0] is not el:
            return False
    return el.k in ("item", "elem")


def difference(p: Path, new: Ev) -> bool | None:
    """Whether the stored resolution is known to differ from the new one."""
    res = plain(new.res)
    verdicts: list[bool | None] = []
    for pc in alternatives(p.pc):
        got: dict[str, bool] = {}
        for k, v in pc.items():
            if not is_op(k, "eq"):
                continue
            x, y = plain(k.a[1]), plain(k.a[2])
            if x.k == "tuple" and y.k == "tuple" and len(x.a) == len(y.a):
                sides = [attr_path(i)[1][-1:] for i in x.a]
                if sides == [attr_path(i)[1][-1:] for i in y.a] and {n[0] for n in sides if n} >= set(RESOLVED):
                    x, y = (root(x.a[0]), res) if root(y.a[0]) is res else (res, root(y.a[0]))
                    x, y = (mk("attr", i, "breakpoint") if i is not res else i for i in (x, y))
            for a, b in ((x, y), (y, x)):
                ra, na = attr_path(a)
                rb, nb = attr_path(b)
                if na and na[0] == "breakpoint" and ra.k in ("item", "elem") and rb is res and na[1:] == nb:
                    for f in nb or RESOLVED:
                        got[f] = v if not nb or len(nb) == 1 else got.get(f, v)
                    if not nb and not v:
                        got = {"verified": False}
        if any(got.get(f) is False for f in RESOLVED):
            verdicts.append(True)
        elif all(got.get(f) is True for f in RESOLVED):
            verdicts.append(False)
        else:
            verdicts.append(None)
    return verdicts[0] if verdicts and all(v is verdicts[0] for v in verdicts) else None


def grown(chk: Check, p: Path, f: t.Any, lines: T, line_p: T, put: Ev) -> None:
    """The list of the lines of the file reaches the line, the new ones continue what is before them."""
    ext = [e for e in before(p, put) if e.kind == "call" and e.name in ("extend", "append", "__iadd__") and e.recv is not None and plain(e.recv) is lines]
    app = [e for e in ext if e.name == "append"]
    if app:
        chk.must(all(plain(e.args[0]) is NONE for e in app), "stored-location", app[0], "a line without a location does not continue the one before", p)
        return
    short = [k for k, v in p.pc.items() if is_op(k, "lt") and (any(is_op(y, "len") for y in walk_term(k)) or v and plain(k.a[1]) is plain(line_p) and k.a[2].k == "const" and lines.k == "lit")]
    if not chk.must(bool(ext) or bool(short), "stored-location", f, "the lines of the file do not reach the location", p):
        return
    for e in ext:
        x = unver(e.args[0])
        if is_op(x, "mul") and len(x.a) == 3:
            l, k = (x.a[1], x.a[2]) if unver(x.a[1]).k == "lit" else (x.a[2], x.a[1])
            c, d = lin(k)
            want = {plain(line_p): 1}
            got = {y: v for y, v in d.items() if not is_op(y, "len")}
            # The length of a new list of one line is known.
            ok = c == 1 and sorted(d.values()) == [-1, 1] or c == 0 and lines.k == "lit" and d == got
            chk.must(ok and got == want, "stored-location", e, "the lines of the file do not reach the location", p)
            cont = p.state.cont.get(unver(l))
            if cont is not None:
                items = [i[0] if isinstance(i, tuple) else i for i in cont[1]]
                chk.must(items == [NONE], "stored-location", e, "a line without a location does not continue the one before", p)


# --- C23 --------------------------------------------------------------------
CONVERT = f"{DBG}.convert_to_client_path"
ROOTS = ("local_root", "remote_root")


def mapping_of(x: t.Any, root_name: str) -> T | None:
    """The mapping a root is of."""
    r, n = attr_path(plain(x))
    return r if n[-1:] == [root_name] and ("path_mappings" in names_in(r) or r.k in ("elem", "item", "op", "call")) else None


def rest_of(x: T, orig: T, m: T, root_name: str) -> bool:
    """What is left of the path after the root."""
    x = plain(x)
    if is_op(x, "removeprefix") or x.k == "call" and tail(str(x.a[0])) == "removeprefix":
        return any(same(y, orig) for y in walk_term(x)) and any(mapping_of(y, root_name) is not None for y in walk_term(x))
    if x.k != "slice" or not same(x.a[0], orig):
        return False
    lo, hi = x.a[1], x.a[2]
    return is_op(lo, "len") and mapping_of(lo.a[1], root_name) is m and (hi is NONE or hi is None)


def translated(chk: Check, p: Path, where: t.Any, value: T, orig_ok: t.Callable[[T], bool], src: str, dst: str) -> str | None:
    """Checks a translation, returns which way the path went."""
    value = plain(value)
    loops = [e for e in p.events if e.kind in ("loop", "loopzero") and e.recv is not None and "path_mappings" in names_in(e.recv) and e.callee != "comprehension"]
    for e in loops:
        r = e.recv
        chk.must(whole(r) and not any(is_op(y, "sorted", "reversed") for y in walk_term(r)), "first-mapping", e, "the mappings are not tried in the order they were given", p)
    hits = []
    for k, v in p.pc.items():
        y = k.a[1] if is_op(k, "truthy") else k
        y = plain(y)
        if is_op(y, "startswith") and "path_mappings" in names_in(y):
            hits.append((y.a[1], y.a[2], v))
    if orig_ok(value):
        hit = [h for h in hits if h[2] and orig_ok(h[0])]
        chk.must(not hit, "root-replaced", where, "a path that a mapping covers is used as it is", p)
        chk.must(bool(loops) or any("path_mappings" in names_in(k) for k in p.pc), "root-replaced", where, "the path is not translated", p)
        for e in loops:
            full = e.kind == "loopzero" or any(x.kind == "loopend" and x.node is e.node for x in after(p, e)) and not broken(p, e)
            chk.must(full, "first-mapping", e, "not every mapping is tried", p)
        for a, b, _ in hits:
            chk.must(orig_ok(a) and mapping_of(b, src) is not None, "first-mapping", where, f"a mapping is chosen by {show(b)[:60]} of {show(a)[:60]}", p)
        return "as-is"
    ok = value.k == "cat" and len(value.a) == 2 and mapping_of(value.a[0], dst) is not None
    if not chk.must(ok, "root-replaced", where, f"the path becomes {show(value)[:100]}", p):
        return None
    m = mapping_of(value.a[0], dst)
    origs = [y for y in walk_term(value.a[1]) if isinstance(y, T) and orig_ok(y)]
    chk.must(bool(origs) and rest_of(value.a[1], origs[0], m, src), "root-replaced", where, f"the rest of the path is {show(value.a[1])[:100]}", p)
    good = [h for h in hits if h[2] and orig_ok(h[0]) and mapping_of(h[1], src) is m]
    chk.must(bool(good), "first-mapping", where, "a path is translated by a mapping whose root does not start it", p)
    for e in loops:
        chk.must(e.kind == "loop" and not any(x.kind == "loopend" and x.node is e.node for x in after(p, e)), "first-mapping", e, "the mappings after the one that covers the path are applied too", p)
    return "mapped"


def c23(chk: Check) -> None:
    """Path mappings are applied both ways.

    That the mappings of the request reach the debuggee is decided by C31, that the client's source is kept by C20 and C22.
    """
    h, paths = set_paths(chk)
    seen: dict[str, int] = {}
    for p in paths:
        for e in p.events:
            if e.kind != "new" or e.name != LINE_BP:
                continue
            v = e.kwargs.get("actual_path")
            if not chk.must(v is not None, "root-replaced", e, "the breakpoint has no path", p):
                continue
            way = translated(chk, p, e, v, lambda x: client_source_or_empty(p, plain(x)), "local_root", "remote_root")
            seen[f"in {way}"] = seen.get(f"in {way}", 0) + 1
            for k in p.pc:
                for y in walk_term(k):
                    if is_op(y, "get") and self_attr(y.a[1]) == "_source_info":
                        chk.must(same(y.a[2], v), "compared-translated", e, "the lines are looked up with another path than the one of the breakpoint", p)
    f = chk.program.func(CONVERT)
    arg = mk("param", f.node.args.args[1].arg)
    for p in slim(chk, f, kinds=LOOPS + ("raise",), pins=("truthy", "startswith")):
        if not chk.must(p.flow == "ret", "root-replaced", f, "a path is not translated", p):
            continue
        way = translated(chk, p, f, p.value, lambda x: plain(x) is arg, "remote_root", "local_root")
        seen[f"out {way}"] = seen.get(f"out {way}", 0) + 1
    sent_paths(chk)
    for k in ("in mapped", "in as-is", "out mapped", "out as-is"):
        chk.floor(seen.get(k, 0), 1, f"paths translated: {k}")


def sent_paths(chk: Check) -> None:
    """Every source that is made for the client holds a translated path."""
    places = sites(chk.program, [DEBUGGEE, STRAT, CALLBACK, f"{PU}._breakpoints"], is_call_of("Source"))
    n = 0
    done: set[str] = set()
    for f, node in places:
        if f.qual in done:
            continue
        done.add(f.qual)
        for p in slim(chk, f, names=("Source", tail(CONVERT), "get_path"), kinds=("raise",), opaque=[CONVERT]):
            for e in p.events:
                if e.kind != "new" or e.name != "Source":
                    continue
                n += 1
                v = kwargs_of(e, fields_of(chk, "Source")).get("path")
                conv = [x for x in before(p, e) if x.callee == CONVERT]
                ok = v is None or v is NONE or any(same(v, x.res) for x in conv) or is_path_of(v, ["source", "path"])
                if chk.must(ok, "sent-translated", e, f"the client is sent the path {show(v)[:80] if v is not None else ''} that is not translated", p) and conv and v is not None:
                    x = next((x for x in conv if same(v, x.res)), None)
                    a = plain(x.args[0]) if x is not None and x.args else None
                    if a is not None:
                        full = any(is_call_term(y, "get_path") for y in walk_term(a))
                        bad = [y for y in walk_term(a) if is_op(y, "split", "partition", "basename", "dirname") or isinstance(y, T) and y.k == "call" and tail(str(y.a[0])) in ("basename", "dirname", "realpath", "abspath")]
                        chk.must(full and not bad, "sent-translated", x, f"what is translated is {show(a)[:80]}", p)
    chk.floor(n, 1, "sources that are sent")
    # What a resolution says about its source.
    f = chk.program.find_func(CALC)
    if f is None:
        return
    src = mk("param", next((a.arg for a in f.node.args.args if "source" in a.arg), "bp_source"))
    for p in slim(chk, f, names=("Breakpoint",), kinds=("raise",)):
        for e in p.events:
            if e.kind == "new" and e.name == "Breakpoint":
                v = kwargs_of(e, fields_of(chk, "Breakpoint")).get("source")
                chk.must(v is not None and same(v, src), "own-source", e, "the answer holds another source than the client's own", p)


# --- C37 --------------------------------------------------------------------
PID_PATH = f"{DEBUGGEE}.get_pid_info_path"
SERVER = f"{MPQ}.ServerMPQueue"
WRITES = ("write_text", "write_bytes", "write", "open", "replace", "rename", "link", "touch", "dump")
TEXT_WRITES = ("write_text", "write_bytes", "write")
QUEUE_INIT = [f"{MPQ}.ServerMPQueue.__init__", f"{MPQ}.ClientMPQueue.__init__", f"{MPQ}.MPQueue.address"]


def pid_files(chk: Check) -> set[str]:
    """The attributes with the path of the process information file."""
    res = set()
    for p in slim(chk, f"{DBG}.__init__", kinds=("setattr",), opaque=[PID_PATH]):
        for e in sets(p.events):
            v = e.args[0]
            if is_pid_path(v):
                res.add(e.callee)
    return res


def is_pid_path(x: t.Any, of: t.Callable[[T], bool] | None = None) -> bool:
    a = made_by(x, PID_PATH)
    return a is not None and len(a) == 1 and (of or is_getpid)(a[0])


def made_by(x: t.Any, q: str) -> list[T] | None:
    """The arguments of the call a value is the result of."""
    x = unver(x) if isinstance(x, T) else x
    if isinstance(x, T) and x.k == "call" and x.a[0] == q:
        return list(x.a[2]) + [v for _, v in x.a[3]]
    if is_op(x, q):
        return [y.a[1] if isinstance(y, T) and y.k == "kw" else y for y in x.a[1:]]
    return None


def is_getpid(x: t.Any) -> bool:
    return made_by(x, "os.getpid") is not None


def publishes(chk: Check, p: Path, files: set[str]) -> list[Ev]:
    """What makes the process information file appear, or changes it."""
    res = []
    for e in p.events:
        if e.kind != "call" or e.name not in WRITES:
            continue
        on = ([e.recv] if e.recv is not None else []) + list(e.args) + list(e.kwargs.values())
        if any(self_attr(y) in files or is_pid_path(y) for x in on for y in walk_term(x) if isinstance(y, T)):
            if e.name == "open" and all(not isinstance(a, T) or a.k != "const" or not set(str(a.a[0])) & set("wax+") for a in [*e.args, *e.kwargs.values()]):
                continue
            res.append(e)
    return res


def written_fields(p: Path, e: Ev) -> tuple[dict[str, T], T] | None:
    """The fields of the JSON text that is written."""
    x = e.arg(0) if e.name in TEXT_WRITES else None
    if e.name == "dump":
        dumped, idx = e, 0
    else:
        text = [y for y in walk_term(x) if made_by(y, "json.dumps") is not None] if x is not None else []
        dumped = next((d for d in calls(before(p, e), "json.dumps") if text and d.res is text[0]), None)
        idx = 0
    if dumped is None:
        return None
    o = dumped.sarg(idx, "obj")
    if isinstance(o, Obj) and o.kind == "dict":
        return {k.a[0]: v for k, v in o.fields if k.k == "const"}, dumped.arg(idx, "obj")
    a = made_by(dumped.arg(idx, "obj"), "dataclasses.asdict")
    if a:
        new = next((n for n in p.events if n.kind == "new" and n.res is unver(a[0])), None)
        if new is not None:
            return dict(new.kwargs), a[0]
    return None


def json_keys(chk: Check) -> dict[str, str]:
    """The name in the file that each field of the process information is read from."""
    q = f"{DEBUGGEE}.PlaybookProcessInfo"
    f = chk.program.func(f"{q}.from_json")
    res: dict[str, str] = {}
    for p in returns(slim(chk, f, names=("PlaybookProcessInfo",), kinds=("new",))):
        for e in p.events:
            if e.kind != "new" or tail(e.callee) != "PlaybookProcessInfo":
                continue
            for k, v in kwargs_of(e, fields_of(chk, q)).items():
                v = plain(v)
                while is_op(v, "bool", "int", "str"):
                    v = v.a[1]
                key = named_item(v)
                if key is not None:
                    res[k] = key
    return res


def named_item(x: T) -> str | None:
    """The name an item of the JSON object is taken by."""
    if x.k == "item" and x.a[1].k == "const":
        return x.a[1].a[0]
    if is_op(x, "get") and x.a[2].k == "const":
        return x.a[2].a[0]
    if x.k == "stararg":
        return x.a[1] if isinstance(x.a[1], str) else None
    return None


def real_address(x: t.Any, server: T) -> bool:
    """The address of the listening socket itself."""
    if not isinstance(x, T) or not mentions(x, server):
        return False
    return any(isinstance(y, T) and (y.k == "call" and y.a[0].endswith(".address") or "getsockname" in str(y.a[0]) or is_op(y, "getsockname")) for y in walk_term(x))


def is_given(x: t.Any, name: str) -> bool:
    """Whether the argument was given."""
    x = plain(x) if isinstance(x, T) else x
    if is_op(x, "not") and is_op(x.a[1], "isnone"):
        x = x.a[1].a[1]
    elif is_op(x, "truthy", "bool"):
        x = x.a[1]
    else:
        return False
    return x.k == "param" and x.a[0] == name


def c37(chk: Check) -> None:
    """Process information and socket files.

    That a listener is stopped whichever way the debuggee ends is decided by C42.
    """
    files = pid_files(chk)
    start = chk.program.func(f"{DBG}.start")
    keys = json_keys(chk)
    listening = 0
    for p in slim(chk, start, names=WRITES + ("dumps", "ServerMPQueue", "ClientMPQueue", "PlaybookProcessInfo"), kinds=("raise",), opaque=QUEUE_INIT + [PID_PATH]):
        made = [e for e in p.events if e.kind == "new" and e.callee == SERVER]
        done = publishes(chk, p, files)
        if not made:
            chk.must(not done, "only-listening", done[0] if done else start, "a debuggee that does not listen has a process information file", p)
            continue
        listening += 1
        if p.flow != "ret":
            continue
        if not chk.must(bool(done), "written", start, "the process information file of a listening debuggee is not written", p):
            continue
        early = [e for e in done if p.index(e) < p.index(made[-1])]
        chk.must(not early, "usable-first", early[0] if early else done[0], "the process information file appears before the socket accepts connections", p)
        texts = [w for e in p.events if e.kind == "call" and e.name in TEXT_WRITES + ("dump",) for w in [(e, written_fields(p, e))] if w[1] is not None]
        if not chk.must(bool(texts), "real-information", done[-1], "the process information is not what is written", p):
            continue
        e, (info, _) = texts[-1]
        server = made[-1].res
        for field, ok in {
            "pid": is_getpid,
            "address": lambda x: real_address(x, server),
            "use_tls": lambda x: is_given(x, "ssl_context"),
            "playbook_file": lambda x: plain(x).k == "param" and plain(x).a[0] == "playbook_file",
        }.items():
            if not chk.must(field in keys, "same-names", f"{DEBUGGEE}.PlaybookProcessInfo.from_json", f"the reader does not know the {field}"):
                continue
            v = info.get(keys[field])
            if chk.must(v is not None, "same-names", e, f"the {field} is not written under the name it is read from: {keys[field]}", p):
                chk.must(ok(v), "real-information", e, f"the {field} is written as {show(v)[:80]}", p)
    chk.floor(listening, 1, "paths of a listening debuggee")
    file_removed(chk, files)
    file_read(chk, keys)
    socket_files(chk)


def unlinks(p: Path) -> list[tuple[Ev, T]]:
    """The files that are removed."""
    res = []
    for e in p.events:
        if e.kind != "call":
            continue
        if e.name == "unlink" and e.recv is not None:
            res.append((e, e.recv))
        elif e.callee in ("os.unlink", "os.remove") and e.arg(0, "path") is not None:
            res.append((e, e.arg(0, "path")))
    return res


def absent_ok(p: Path, e: Ev, others: list[Path]) -> bool:
    """A file that is not there does not make the removal fail."""
    m = e.kwargs.get("missing_ok") or (e.arg(0) if e.name == "unlink" and e.callee not in ("os.unlink", "os.remove") else None)
    if m is TRUE:
        return True
    if any(v and any(is_op(y, "exists", "is_file") or isinstance(y, T) and y.k == "call" and tail(y.a[0]) in ("exists", "is_file", "is_socket") for y in walk_term(k)) for k, v in p.pc.items()):
        return True
    return any(x.node is e.node and x.raised and o.flow == "ret" for o in others for x in o.events)


def file_removed(chk: Check, files: set[str]) -> None:
    f = chk.program.func(f"{DBG}.shutdown")
    state = f"{STATE}.disconnect"
    paths = slim(chk, f, names=("unlink", "remove", "exists", "is_file"), mode="try", opaque=[state, PID_PATH])
    n = 0
    for p in paths:
        if p.flow != "ret":
            continue
        n += 1
        gone = [e for e, x in unlinks(p) if any(self_attr(y) in files or is_pid_path(y) for y in walk_term(x))]
        missing = any(not v and "exists" in show(k) for k, v in p.pc.items())
        chk.must(bool(gone) or missing, "removed", f, "the process information file is left behind", p)
        for e in gone:
            chk.must(e.raised or absent_ok(p, e, paths), "removed", e, "the shutdown fails when there is no process information file", p)
    chk.floor(n, 2, "ways through the shutdown")


def file_read(chk: Check, keys: dict[str, str]) -> None:
    """The reader finds the file of the process and takes the address and the TLS setting from it."""
    q = f"{ADAPTER}.AttachArguments.get_connection_tuple"
    f = chk.program.func(q)
    n = 0
    for p in slim(chk, f, names=("PlaybookProcessInfo",), opaque=[PID_PATH]):
        asked = [v for k, v in p.pc.items() if is_op(k, "isnone") and self_attr(k.a[1]) == "process_id"] + [not v for k, v in p.pc.items() if is_op(k, "truthy") and self_attr(k.a[1]) == "process_id"]
        if p.flow != "ret" or not asked or asked[0]:
            continue
        n += 1
        v = plain(p.value)
        parts = list(v.a) if v.k == "tuple" else []
        if not chk.must(len(parts) == 2, "read-back", f, f"the connection is {show(v)[:80]}", p):
            continue
        for x, field in zip(parts, ("address", "use_tls")):
            while is_op(x, "bool", "truthy"):
                x = x.a[1]
            key = named_item(x)
            chk.must(key is not None and key == keys.get(field), "read-back", f, f"the {field} is read as {show(x)[:80]}", p)
            src = [y for y in walk_term(x) if isinstance(y, T) and y.k == "call" and y.a[0] == PID_PATH]
            chk.must(any(is_pid_path(y, lambda a: self_attr(a) == "process_id") for y in src), "same-file", f, "the information is not read from the file of the process", p)
    chk.floor(n, 1, "paths of an attach by process")


def socket_files(chk: Check) -> None:
    """The file of a Unix socket is removed when its listener stops."""
    stop = chk.program.func(f"{SERVER}.stop")
    attr: set[str] = set()
    paths = slim(chk, stop, names=("unlink", "remove", "exists", "is_file"), mode="none", opaque=[f"{MPQ}.MPQueue.stop"], pins=("truthy", "isnone"))
    for p in paths:
        for _, x in unlinks(p):
            attr |= {self_attr(y) for y in walk_term(x) if self_attr(y)}
    if not chk.must(bool(attr), "socket-removed", stop, "the socket file is never removed"):
        return
    for p in returns(paths):
        gone = [e for e, x in unlinks(p) if any(self_attr(y) in attr for y in walk_term(x))]
        none = any((v if is_op(k, "isnone") else not v) for k, v in p.pc.items() if is_op(k, "isnone", "truthy") and self_attr(k.a[1]) in attr)
        chk.must(bool(gone) or none, "socket-removed", stop, "the socket file is left behind", p)
        for e in gone:
            chk.must(absent_ok(p, e, paths), "socket-removed", e, "stopping fails when the socket file is gone", p)
    init = chk.program.func(f"{SERVER}.__init__")
    make = f"{SOCK}.create_uds_with_mask"
    n = 0
    for p in returns(slim(chk, init, names=(tail(make), "bind", "listen", "create_server"), attrs=tuple(attr), opaque=[make, f"{SOCK}.parse_addr_string"])):
        bound = [e.arg(0, "addr") for e in p.events if e.callee == make] + [e.arg(0) for e in p.events if e.kind == "call" and e.name == "bind"]
        ready = [e for e in p.events if e.kind in ("call", "new") and e.name in ("listen", "create_server")]
        chk.must(bool(ready), "usable-first", init, "a new listener does not accept connections", p)
        kept = {e.callee: e.args[0] for e in sets(p.events) if e.callee in attr}
        if not bound:
            chk.must(all(plain(v) is NONE for v in kept.values()), "socket-known", init, "a listener without a socket file removes a file", p)
            continue
        n += 1
        chk.must(len(kept) == len(attr) and all(same(v, bound[0]) for v in kept.values()), "socket-known", init, "the socket file that is removed is not the one that was made", p)
    chk.floor(n, 1, "listeners with a socket file")
    for g, node in sites(chk.program, [MPQ], mutates_any(attr)):
        if g.qual in (stop.qual, init.qual) or g.cls is None or not subclass(chk, g.cls.qual, f"{MPQ}.MPQueue"):
            continue
        chk.must(False, "socket-known", g, "the socket file is forgotten while the listener is used")


def mutates_any(attrs: set[str]) -> t.Callable[[ast.AST], bool]:
    tests = [mutates(a) for a in attrs]
    return lambda n: any(f(n) for f in tests)


# --- C38 --------------------------------------------------------------------
WAIT_CONFIG = f"{DBG}.wait_for_config_done"
PAUSES = ("wait", "wait_for")


def config_event(chk: Check) -> str:
    """The attribute with the event that is set once the configuration is done."""
    names = {self_attr(e.recv) for p in slim(chk, WAIT_CONFIG, names=PAUSES + ("notify_all",), kinds=("setattr",)) for e in p.events if e.kind == "call" and e.callee == "threading.Event.wait"} - {None}
    if len(names) != 1:
        raise AnalysisError(f"anchor vanished: the event of the configuration: {sorted(names)}")
    return names.pop()


def told(chk: Check, p: Path, until: t.Callable[[Ev], bool]) -> set[str]:
    """The flags that are set, with whoever waits told so, before something happens."""
    res: dict[str, Ev] = {}
    good = set()
    for e in p.events:
        if until(e):
            break
        if e.kind == "setattr" and e.args and e.args[0] is TRUE and e.recv is not None and unver(e.recv).k == "param":
            res[e.callee] = e
        if e.kind == "call" and e.name in ("notify_all",) and e.recv is not None and any(same(x, e.recv) for x in e.locks):
            good |= {k for k, s in res.items() if any(same(x, e.recv) for x in s.locks)}
    return good


def c38(chk: Check) -> None:
    """A playbook waits for its client only while one can still come.

    That the threads that send and receive end with the connection is decided by C06, C07 and C42.
    """
    done = config_event(chk)
    waits_for_client(chk, done)
    h = handler(chk, DBG, "ConfigurationDoneRequest")
    n = 0
    for p in slim(chk, h, names=("set", "clear") + PAUSES):
        if p.flow == "ret":
            n += 1
            chk.must(set_in(p, done), "configuration-ends-wait", h, "the wait goes on once the configuration is done", p)
        bad = [e for e in p.events if e.kind == "call" and e.name in PAUSES]
        chk.must(not bad, "configuration-ends-wait", bad[0] if bad else h, "the end of the configuration waits for something else", p)
    chk.floor(n, 1, "ways of ending the configuration")
    lost = 0
    task = chk.program.func(f"{DBG}._send_task")
    for p in slim(chk, task, names=("set", "clear"), mode="try", opaque=[f"{MPQ}.MPQueue.start", f"{MPQ}.MPQueue.send", f"{MPQ}.MPQueue.stop"]):
        if p.flow == "loop":
            continue
        lost += 1
        chk.must(set_in(p, done), "connection-ends-wait", task, "the wait goes on once there is no connection", p)
    chk.floor(lost, 2, "ways the connection ends")
    down = chk.program.func(f"{DBG}.shutdown")
    for p in slim(chk, down, names=("set", "clear"), opaque=[f"{STATE}.disconnect"]):
        chk.must(p.flow != "ret" or set_in(p, done), "shutdown-ends-wait", down, "the wait goes on after the shutdown", p)
    for f, node in sites(chk.program, [DEBUGGEE, STRAT, CALLBACK], lambda x: isinstance(x, ast.Attribute) and x.attr == done):
        for p in slim(chk, f, names=("clear",), attrs=(done,)):
            again = [e for e in p.events if e.kind == "call" and e.name == "clear" and self_attr(e.recv) == done or e.kind in ("setattr", "delattr") and e.callee == done]
            chk.must(not again or f.name == "__init__", "stays-done", again[0] if again else f, "the wait can start again after it has ended", p)
    blocked_requests(chk, done)


def set_in(p: Path, attr: str) -> bool:
    return any(e.kind == "call" and e.name == "set" and self_attr(e.recv) == attr for e in p.events)


def waits_for_client(chk: Check, done: str) -> None:
    """No play starts before the wait, unless told so."""
    cb = f"{CALLBACK}.CallbackModule"
    f = chk.program.func(f"{cb}.v2_playbook_on_start")
    n = skipped = 0
    start = f"{DBG}.start"
    for p in slim(chk, f, names=("start", "wait_for_config_done", "get_option"), opaque=[start, WAIT_CONFIG]):
        waited = [e for e in p.events if e.callee == WAIT_CONFIG]
        started = [e for e in p.events if e.callee == start]
        if p.flow != "ret":
            continue
        if not chk.must(len(started) == 1, "waits", f, "the debugger is not started", p):
            continue
        told_not = option_value(p, "no_wait_for_config_done")
        if waited:
            n += 1
            e = waited[0]
            tm = e.arg(0, "timeout")
            chk.must(told_not is False, "told-not-to", e, "the playbook waits for a client although it was told not to", p)
            chk.must(p.index(e) > p.index(started[0]), "waits", e, "the playbook waits before a client can connect", p)
            chk.must(tm is NONE, "waits", e, "the playbook may start before the configuration is done", p)
        else:
            skipped += 1
            chk.must(told_not is True, "waits", f, "the playbook starts before the configuration is done", p)
    chk.floor(n, 1, "paths that wait for the client")
    chk.floor(skipped, 1, "paths that do not wait for the client")
    g = chk.program.func(WAIT_CONFIG)
    for p in slim(chk, g, names=PAUSES + ("notify_all", "is_set"), kinds=("setattr",)):
        here = [e for e in p.events if e.kind == "call" and e.callee == "threading.Event.wait" and self_attr(e.recv) == done]
        known = any(v and done in names_in(k) and "is_set" in show(k) for k, v in p.pc.items())
        if not chk.must(bool(here) or known or p.flow != "ret", "waits", g, "nothing is waited for", p):
            continue
        for e in here:
            tm = e.arg(0, "timeout")
            ok = tm is None or plain(tm).k == "param" or tm is NONE
            chk.must(ok, "waits", e, f"the wait for the configuration ends after {show(tm) if tm is not None else tm}", p)
            chk.must(not e.locks, "wait-without-lock", e, "a lock is kept during the wait", p)


def option_value(p: Path, name: str) -> bool | None:
    """Whether the option of the plugin is set."""
    for k, v in p.pc.items():
        x = unver(k.a[1]) if is_op(k, "truthy") else None
        if isinstance(x, T) and x.k == "call" and tail(x.a[0]) == "get_option" and const(name) in [*x.a[2], *[y for _, y in x.a[3]]]:
            return v
        if is_op(x, "get_option") and const(name) in x.a:
            return v
    return None


def blocked_requests(chk: Check, done: str) -> None:
    """Nothing that is waited for during a request keeps the wait or the shutdown from ending."""
    disp = dispatcher(chk, DBG)
    table = chk.program.cls(DBG).dispatch_table(tail(disp))
    ended: set[str] | None = None
    for p in returns(slim(chk, f"{DBG}.shutdown", names=("join", "notify_all"), kinds=("setattr",), opaque=[f"{STATE}.disconnect"])):
        flags = told(chk, p, lambda e: e.kind == "call" and e.name == "join")
        ended = flags if ended is None else ended & flags
    waiting: set[str] | None = None
    for p in slim(chk, WAIT_CONFIG, names=PAUSES + ("notify_all",), kinds=("setattr",)):
        if any(e.kind == "call" and e.callee == "threading.Event.wait" for e in p.events):
            flags = told(chk, p, lambda e: e.kind == "call" and e.callee == "threading.Event.wait")
            waiting = flags if waiting is None else waiting & flags
    playing = play_starts(chk)
    for q, f in table.items():
        chk.blocked = []
        paths = slim(chk, f, names=PAUSES + ("join", "get"), mode="none", pins=("truthy", "isnone"))
        states = [(nm, node, fn, pc) for nm, _, node, fn, pc, timed in chk.blocked if not timed]
        for p in paths:
            for e in p.events:
                if e.kind == "call" and e.name in ("wait", "join", "get") and e.callee.split(".")[0] in ("threading", "queue") and not timed_wait(e):
                    states.append((e.callee, e.node, e.func, e.pc))
        for nm, node, fn, pc in states:
            where = Place(fn, node)
            flag = {self_attr(k.a[1]): v for k, v in pc.items() if is_op(k, "truthy")}
            isset = any(v and is_op(k, "truthy") and done in names_in(k) for k, v in pc.items())
            chk.must(any(flag.get(a) is False for a in ended or ()), "shutdown-ends-request", where, f"a {tail(q)} keeps waiting during the shutdown, which waits for it")
            chk.must(isset or any(flag.get(a) is False for a in waiting or ()), "request-ends-wait", where, f"a {tail(q)} waits for a play while the playbook waits for the configuration")
            none = {self_attr(k.a[1]) for k, v in pc.items() if v and is_op(k, "isnone") or not v and is_op(k, "truthy")}
            chk.must(bool(none & playing), "play-ends-request", where, f"a {tail(q)} keeps waiting once a play runs")
    chk.floor(len(table), 14, "kinds of message that are processed")


def play_starts(chk: Check) -> set[str]:
    """What is set, with whoever waits told so, when a play starts."""
    f = chk.program.func(f"{DBG}.with_strategy")
    res: set[str] | None = None
    for p in slim(chk, f, names=("notify_all",), kinds=("setattr", "yield")):
        names = set()
        first = next((i for i, e in enumerate(p.events) if e.kind == "yield"), len(p.events))
        for i, e in enumerate(p.events[:first]):
            if e.kind == "setattr" and plain(e.args[0]).k == "param":
                names |= {e.callee for x in p.events[i:first] if x.kind == "call" and x.name == "notify_all" and x.recv is not None and any(same(y, x.recv) for y in x.locks) and any(same(y, x.recv) for y in e.locks)}
        res = names if res is None else res & names
    return res or set()


class Place:
    """A construct of the source."""

    def __init__(self, func: t.Any, node: ast.AST) -> None:
        self.func, self.node = func, node
        self.loc = f"{func.module.rel}:{node.lineno} ({func.qual})"

    def __str__(self) -> str:
        return self.func.qual


def timed_wait(e: Ev) -> bool:
    tm = e.kwargs.get("timeout") or (e.arg(0) if e.name in ("wait", "join") else e.arg(1))
    return tm is not None and tm is not NONE


# --- C42 --------------------------------------------------------------------
def c42(chk: Check) -> None:
    """The debuggee process ends with its playbook.

    That the blocking socket operations of the threads end once they are cancelled is decided by C07.
    """
    threads_are_daemons(chk)
    down = f"{DBG}.shutdown"
    start = chk.program.func(f"{DBG}.start")
    n = 0
    for p in slim(chk, start, names=("register", "unregister", "Thread", "start"), opaque=QUEUE_INIT + [PID_PATH]):
        if p.flow != "ret":
            continue
        n += 1
        reg = [e for e in calls(p.events, "atexit.register") if runs_shutdown(chk, e.arg(0, "func"), down)]
        reg += [e for e in p.events if e.kind == "call" and e.callee == "weakref.finalize" and runs_shutdown(chk, e.arg(1), down)]
        chk.must(bool(reg), "reached", start, "a playbook that is aborted ends without the shutdown", p)
        gone = [e for e in calls(p.events, "atexit.unregister")]
        chk.must(not gone or reg and p.index(gone[-1]) < p.index(reg[-1]), "reached", gone[-1] if gone else start, "the shutdown is not run at the exit", p)
        for e in reg:
            extra = [*e.args[1:], *[v for k, v in e.kwargs.items() if k != "func"]]
            chk.must(all(x is FALSE for x in extra), "reached", e, "the shutdown at the exit does not wait for what is to be sent", p)
    chk.floor(n, 2, "ways of starting the debugger")
    stats = chk.program.func(f"{CALLBACK}.CallbackModule.v2_playbook_on_stats")
    for p in returns(slim(chk, stats, names=("shutdown",), opaque=[down])):
        e = next((e for e in p.events if e.callee == down), None)
        chk.must(e is not None and (e.arg(0, "from_send_thread") in (None, FALSE)), "reached", stats, "the end of the playbook does not shut the debugger down", p)
    joined(chk, down)
    sent_until_end(chk)
    lost = chk.program.func(f"{DEBUGGEE}.DAProtocol.connection_closed")
    for p in returns(slim(chk, lost, names=("shutdown",), opaque=[down])):
        e = next((e for e in p.events if e.callee == down), None)
        chk.must(e is not None, "reached", lost, "the end of the connection does not shut the debugger down", p)
        if e is not None:
            flag = e.arg(0, "from_send_thread")
            chk.must(flag is TRUE, "no-self-join", e, "the thread that receives waits for the thread that waits for it", p)


def runs_shutdown(chk: Check, x: t.Any, down: str) -> bool:
    if not isinstance(x, T):
        return False
    if x.k == "closure" and x in chk.closures:
        node = chk.closures[x][0]
        body = node.body if isinstance(node, ast.Lambda) else node.body[0].value if len(node.body) == 1 and isinstance(node.body[0], ast.Expr) else None
        return isinstance(body, ast.Call) and isinstance(body.func, ast.Attribute) and body.func.attr == tail(down) and not body.args and not body.keywords
    return x.k in ("bound", "func") and x.a[0] == down or x.k == "attr" and x.a[1] == tail(down)


POOLS = ("ThreadPoolExecutor", "ProcessPoolExecutor", "ThreadPool", "Timer")


def threads_are_daemons(chk: Check) -> None:
    """No thread of the debuggee keeps the process alive."""
    n = 0
    mods = [DEBUGGEE, MPQ, SOCK, STRAT, CALLBACK]
    done: set[str] = set()
    for f, node in sites(chk.program, mods, is_call_of("Thread", *POOLS)):
        if f.qual in done:
            continue
        done.add(f.qual)
        here = {id(node) for g, node in sites(chk.program, mods, is_call_of("Thread", *POOLS)) if g is f}
        reached: set[int] = set()
        for p in slim(chk, f, names=("Thread", "start", "setDaemon") + POOLS, attrs=("daemon",), opaque=QUEUE_INIT + [PID_PATH]):
            for e in p.events:
                if e.kind not in ("new", "call") or id(e.node) not in here:
                    continue
                reached.add(id(e.node))
                if e.callee.startswith(DAP) or e.callee.startswith(STRAT) and not subclass(chk, e.callee, "threading.Thread"):
                    continue
                n += 1
                if not chk.must(tail(e.callee) == "Thread", "daemon", e, f"the {tail(e.callee)} keeps the process alive", p):
                    continue
                d = e.kwargs.get("daemon")
                begun = next((x for x in after(p, e) if x.kind == "call" and x.name == "start" and x.recv is not None and same(x.recv, e.res)), None)
                later = [x for x in after(p, e) if x.kind == "setattr" and x.callee == "daemon" and same(x.recv, e.res) and (begun is None or p.index(x) < p.index(begun))]
                if later:
                    d = later[-1].args[0]
                chk.must(d is TRUE, "daemon", e, "the thread keeps the process alive after the playbook", p)
        chk.must(reached == here, "daemon", f, "a thread is made in a way that is not known")
    chk.floor(n, 2, "threads of the debuggee")


def joined(chk: Check, down: str) -> None:
    """The shutdown lets the send thread finish what is queued, and waits for it without keeping it from ending."""
    f = chk.program.func(down)
    n = 0
    for p in slim(chk, f, names=("join", "put", "put_nowait", "cancel", "notify_all"), kinds=("setattr",), opaque=[f"{STATE}.disconnect"], pins=("truthy",)):
        joins = [e for e in p.events if e.kind == "call" and e.callee.endswith("Thread.join") and self_attr(e.recv) is not None]
        stops = [e for e in queued(p.events) if message(e) is NONE]
        mine = fact_of_param(p, "from_send_thread")
        thread = next((v if is_op(k, "truthy") else not v for k, v in p.pc.items() if is_op(k, "truthy", "isnone") and (self_attr(k.a[1]) or "").endswith("thread")), None)
        if p.flow != "ret":
            continue
        if mine is not False:
            chk.must(not joins, "no-self-join", joins[0] if joins else f, "the thread that receives waits for the thread that waits for it", p)
            continue
        if thread is False:
            continue
        n += 1
        if not chk.must(bool(joins), "flushed", f, "the process may end before what is queued is sent", p):
            continue
        j = joins[0]
        chk.must(j.arg(0, "timeout") in (None, NONE), "flushed", j, "the process may end before what is queued is sent", p)
        early = [e for e in stops if p.index(e) < p.index(j)]
        chk.must(bool(early), "send-thread-ends", j, "the send thread is waited for before it is told to end", p)
        conn = [v for k, v in p.pc.items() if is_op(k, "truthy") and "connected" in (self_attr(k.a[1]) or "")]
        cut = [e for e in did(p.events, "cancel") if p.index(e) < p.index(j)]
        if not conn or conn[0]:
            chk.must(not cut, "flushed", cut[0] if cut else f, "what is queued for a connected client is not sent", p)
        if not conn or not conn[0]:
            chk.must(bool(cut), "send-thread-ends", j, "a send thread that still waits for a connection is waited for", p)
        chk.must(not j.locks, "send-thread-ends", j, "a lock is kept while the send thread is waited for", p)
        flags = told(chk, p, lambda e: e is j)
        chk.must(bool(flags), "send-thread-ends", j, "a request that waits for a play is waited for", p)
    chk.floor(n, 2, "ways of waiting for the send thread")


def fact_of_param(p: Path, name: str) -> bool | None:
    for k, v in p.pc.items():
        if is_op(k, "truthy") and plain(k.a[1]).k == "param" and plain(k.a[1]).a[0] == name:
            return v
    return None


def sent_until_end(chk: Check) -> None:
    """Everything that is queued is sent in order until the end, then the connection is closed."""
    q = f"{DBG}._send_task"
    f = chk.program.func(q)
    parts = [f"{MPQ}.MPQueue.start", f"{MPQ}.MPQueue.send", f"{MPQ}.MPQueue.stop"]
    gets = sends = 0
    for p in slim(chk, f, names=("get", "get_nowait", "start", "send", "stop"), kinds=LOOPS, mode="try", opaque=parts, pins=("truthy", "isnone")):
        if p.flow != "loop":
            chk.must(any(e.callee == parts[2] for e in p.events), "closed", f, "the connection is not closed when the send thread ends", p)
            chk.must(p.flow == "ret", "closed", f, "the send thread ends with an error", p)
        pending: Ev | None = None
        for e in p.events:
            if e.kind == "call" and e.name in ("get", "get_nowait") and e.callee.startswith("queue."):
                gets += 1
                if e.raised:
                    continue
                chk.must(e.name == "get" and not timed_wait(e), "sent-in-order", e, "the send thread does not wait for what is to be sent", p)
                if pending is not None:
                    chk.must(False, "sent-in-order", pending, "a message is taken from the queue and not sent", p)
                pending = e
            elif e.callee == parts[1]:
                sends += 1
                ok = pending is not None and same(e.arg(0, "data"), pending.res)
                chk.must(ok, "sent-in-order", e, "what is sent is not what was queued", p)
                pending = None
        end = pending is not None and (truth_of(p.pc, pending.res) is False or none_of(p.pc, pending.res) is True)
        chk.must(pending is None or end, "sent-in-order", pending or f, "a message is taken from the queue and not sent", p)
        if p.flow == "ret" and not any(e.raised for e in p.events):
            chk.must(end, "sent-in-order", f, "the send thread ends before it is told to", p)
    chk.floor(gets, 2, "messages taken from the queue")
    chk.floor(sends, 1, "messages sent")
    kinds = set()
    for p in slim(chk, f"{DBG}.__init__", kinds=("setattr",), opaque=[PID_PATH]):
        for e in sets(p.events):
            if e.args[0].k == "new" and "queue" in e.callee:
                kinds.add(tail(str(e.args[0].a[0])))
    chk.must(bool(kinds) and kinds <= {"Queue", "SimpleQueue"}, "sent-in-order", f"{DBG}.__init__", f"what is queued is not kept in order: {sorted(kinds)}")
