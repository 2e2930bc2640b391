"""The debug adapter: C10, C11, C12, C30, C31, C40, C41."""

from __future__ import annotations

import ast
import re

from ..program import AnalysisError
from ..report import Check
from ._util import *

SERVER = f"{ADAPTER}.DAServer"
START = f"{SERVER}.start"
NEXT = "ansibug.dap._adapter.DebugAdapterConnection.next_message"
RECV = "ansibug.dap._adapter.DebugAdapterConnection.receive_data"
MSEND = f"{MPQ}.MPQueue.send"
MSTOP = f"{MPQ}.MPQueue.stop"


def dispatcher(chk: Check, cls: str) -> str:
    """The single dispatch method a class handles messages with."""
    names = [f.qual for f in chk.program.cls(cls).methods.values() if f.is_singledispatch]
    if len(names) != 1:
        raise AnalysisError(f"anchor vanished: {cls} has {len(names)} single dispatch methods")
    return names[0]


def handler(chk: Check, cls: str, msg: str):
    """The implementation for one message class."""
    d = dispatcher(chk, cls)
    table = chk.program.cls(cls).dispatch_table(d.rsplit(".", 1)[-1])
    for q, f in table.items():
        if tail(q) == msg:
            return f
    raise AnalysisError(f"anchor vanished: {cls} does not handle {msg}")


def client_loop(chk: Check):
    """(read, receive_data, next_message calls, path) for every path of the adapter's read loop."""
    disp = dispatcher(chk, SERVER)
    res = []
    for p in chk.walk(START, raise_mode="none", opaque=[disp, NEXT, RECV, MSEND, MSTOP, f"{SERVER}.stop"]):
        reads = [e for e in p.events if e.kind == "call" and e.name in ("read", "readline", "read1", "recv", "readinto")]
        for r in reads:
            later = after(p, r)
            rc = [e for e in later if e.callee == RECV]
            if truth_of(p.pc, r.res) is False or none_of(p.pc, r.res) is True:
                continue
            nxt = [e for e in later if e.callee == NEXT] if rc else []
            res.append((r, rc[0] if rc else None, nxt, p))
    chk.floor(len(res), 2, "paths of the adapter's read loop with data")
    return res


PROTO = f"{ADAPTER}.DAProtocol"
QMSG = "ansibug.dap._adapter.DebugAdapterConnection.queue_msg"
DTS = "ansibug.dap._adapter.DebugAdapterConnection.data_to_send"
SELF = mk("param", "self")
ADAPTER_MODULES = (ADAPTER, MPQ, SOCK, "ansibug._tls", "ansibug._logging")


def client_sends(events) -> list[Ev]:
    return [e for e in events if e.callee == QMSG and e.kind == "call"]


def sent(e: Ev):
    return e.sarg(0, "msg")


def sent_is(e: Ev, cls: str) -> bool:
    x = sent(e)
    return isinstance(x, Obj) and x.kind == "obj" and tail(x.qual) == cls


def loop_paths(chk: Check) -> list[Path]:
    disp = dispatcher(chk, SERVER)
    return chk.walk(START, raise_mode="none", opaque=[disp, NEXT, RECV, MSEND, MSTOP, f"{SERVER}.stop"])


def outstanding(chk: Check) -> str:
    """The attribute that holds the requests without a response: keyed by the sequence number, holding the message."""
    names = set()
    for p in loop_paths(chk):
        for e in p.events:
            if e.kind == "setitem" and len(e.args) == 2 and unver(e.args[0]).k == "attr" and unver(e.args[0]).a[1] == "seq":
                r, n = attr_path(e.recv)
                if r is SELF and len(n) == 1:
                    names.add(n[0])
    if len(names) != 1:
        raise AnalysisError(f"anchor vanished: the outstanding requests are in {sorted(names)}")
    return names.pop()


def connection_attr(chk: Check) -> str:
    """The attribute that holds the connection to the debuggee."""
    names = set()
    for p in loop_paths(chk):
        for e in p.events:
            if e.callee == MSEND:
                r, n = attr_path(e.recv)
                if r is SELF and len(n) == 1:
                    names.add(n[0])
    if len(names) != 1:
        raise AnalysisError(f"anchor vanished: requests are relayed to {sorted(names)}")
    return names.pop()


def c10(chk: Check) -> None:
    """Relaying between client and debuggee.

    MPQueue.send delivers what it is given (C05), the client connection writes what is queued (C01, C12)."""
    disp = dispatcher(chk, SERVER)
    conn = mk("attr", SELF, connection_attr(chk), 0)
    pend = outstanding(chk)
    n = relayed = processed = 0
    for p in loop_paths(chk):
        if p.flow == "loop" and not any(e.callee == NEXT for e in p.events):
            continue
        for m in [e for e in p.events if e.callee == NEXT]:
            if truthy_or_given(p.pc, m.res) is not True:
                continue
            n += 1
            rest = after(p, m)
            stop = next((i for i, e in enumerate(rest) if e.callee == NEXT), len(rest))
            part = rest[:stop]
            relay = [e for e in part if e.callee == MSEND]
            proc = [e for e in part if e.callee == disp]
            where = m
            is_req = isa_of(p.pc, m.res, "Request")
            given = truthy_or_given(p.pc, conn)
            chk.must(len(relay) + len(proc) == 1, "handled-once", where, f"a message of the client is relayed {len(relay)} times and processed {len(proc)} times, not once", p)
            for e in relay:
                relayed += 1
                chk.must(e.args and same(e.args[0], m.res), "relayed-unchanged", e, "the message relayed is not the one received", p)
                chk.must(is_req is True or given is True and is_req is not False, "relay-only-requests", e, "a message that may not be a request is relayed", p)
                chk.must(same(e.recv, conn) and given is True, "relay-when-connected", e, "a request is relayed without a connection", p)
            for e in proc:
                processed += 1
                chk.must(e.args and same(e.args[0], m.res), "processed-unchanged", e, "the message processed is not the one received", p)
                chk.must(is_req is False or given is False, "processed-only-when-not-connected", e, "a request is processed by the adapter although a debuggee is connected", p)
            if is_req is not False and (relay or proc):
                first = (relay + proc)[0]
                rec = [e for e in before(p, first) if e.kind == "setitem" and attr_path(e.recv)[1] == [pend] and p.index(e) > p.index(m)]
                ok = len(rec) == 1 and is_op(unver(rec[0].args[0]), "seq") is False and same(rec[0].args[0], mk("attr", m.res, "seq", ())) and same(rec[0].args[1], m.res)
                chk.must(ok, "recorded-before-handled", first, "a request is handled without being recorded as outstanding under its sequence number first", p)
    chk.floor(n, 3, "messages decoded from the client")
    chk.floor(relayed, 1, "relays to the debuggee")
    chk.floor(processed, 1, "messages processed by the adapter")

    # --- debuggee to client
    n = 0
    for p in returns(chk.walk(f"{PROTO}.on_msg_received", raise_mode="none", opaque=[QMSG, DTS])):
        n += 1
        s = client_sends(p.events)
        chk.must(len(s) == 1 and same(s[0].args[0], mk("param", "msg")), "debuggee-message-relayed", f"{PROTO}.on_msg_received", f"a message of the debuggee is sent to the client {len(s)} times, or changed", p)
    chk.floor(n, 1, "paths relaying a message of the debuggee")

    # --- outstanding requests
    removal_paths = []
    n = 0
    for p in chk.walk(f"{SERVER}.send_to_client", raise_mode="all", opaque=[QMSG, DTS]):
        removal_paths.append(p)
        msg = mk("param", "msg")
        rem = [e for e in p.events if attr_path(e.recv)[1] == [pend] and (e.kind == "delitem" or e.kind == "call" and e.name in MUTATORS)] if True else []
        writes = [e for e in p.events if e.kind == "call" and e.name == "write" and not e.raised]
        for e in rem:
            n += 1
            chk.must(e.args and same(e.args[0], mk("attr", msg, "request_seq", ())), "removed-by-its-response", e, "the request removed is not the one answered", p)
            chk.must(isa_of(p.pc, msg, "Response") is True, "removed-by-a-response", e, "a request is removed by a message that is no response", p)
            chk.must(writes and p.index(writes[-1]) < p.index(e), "removed-after-sent", e, "a request stops being outstanding before its response is written", p)
        if p.flow == "ret" and isa_of(p.pc, msg, "Response") is not False:
            chk.must(len(rem) == 1, "answered-request-removed", f"{SERVER}.send_to_client", "an answered request stays outstanding", p)
    chk.floor(n, 1, "removals of an outstanding request")
    seen = visited(removal_paths) | visited(loop_paths(chk))
    for f, node in sites(chk.program, [ADAPTER], mutates(pend)):
        if f.name == "__init__":
            continue
        chk.must((f.module.rel, node.lineno) in seen, "no-other-removal", f, f"line {node.lineno} changes the outstanding requests elsewhere")

    # --- the end because of an error
    paths = returns(chk.walk(f"{SERVER}.stop", raise_mode="none", opaque=[QMSG, DTS, MSTOP]))
    base = mk("attr", SELF, pend, 0)
    exp = mk("param", "exp")
    n = 0
    for p in paths:
        failed = truthy_or_given(p.pc, exp)
        errs = [e for e in client_sends(p.events) if sent_is(e, "ErrorResponse")]
        if failed is False:
            chk.must(not errs, "no-errors-on-orderly-end", f"{SERVER}.stop", "an error response is sent although there was no error", p)
            continue
        if failed is None:
            chk.must(False, "errors-sent", f"{SERVER}.stop", "the end does not depend on whether there was an error", p)
            continue
        for e in errs:
            n += 1
            o = sent(e)
            rs, cmd = plain(o.get("request_seq")), plain(o.get("command"))
            el = rs.a[0] if isinstance(rs, T) and rs.k == "attr" and rs.a[1] == "seq" else None
            chk.must(el is not None and element_of(el, base), "error-names-its-request", e, "the error response does not carry the sequence number of an outstanding request", p)
            chk.must(el is not None and isinstance(cmd, T) and same(cmd, mk("attr", el, "command", ())), "error-names-its-command", e, "the error response does not carry the command of its request", p)
        if not errs:
            ok = empty_loop(p, base) or excluded(p, base, "DisconnectRequest")
            chk.must(ok, "errors-sent", f"{SERVER}.stop", "outstanding requests get no error response when the adapter fails", p)
    chk.floor(n, 1, "error responses sent at the end")

    # --- the error reaches stop
    for p in chk.walk(f"{PROTO}.connection_closed", raise_mode="none", opaque=[f"{SERVER}.stop"]):
        s = [e for e in p.events if e.callee == f"{SERVER}.stop"]
        chk.must(len(s) == 1 and same(s[0].arg(0, "exp"), mk("param", "exp")), "connection-error-passed-on", f"{PROTO}.connection_closed", "the error that ended the debuggee connection is not passed on", p)
    n = 0
    for p in chk.walk(f"{ADAPTER}.start_dap", raise_mode="all", opaque=[START, f"{SERVER}.stop"]):
        for st in [e for e in p.events if e.callee == START]:
            stops = [e for e in after(p, st) if e.callee == f"{SERVER}.stop"]
            chk.must(len(stops) == 1, "stopped-however-it-ends", st, f"the adapter is stopped {len(stops)} times after its loop", p)
            for e in stops:
                n += 1
                x = e.arg(0, "exp")
                given = x is not None and x is not NONE
                chk.must(given == st.raised, "error-passed-to-stop", e, "the error that ended the adapter is not passed on" if st.raised else "an error is reported for an orderly end", p)
    chk.floor(n, 2, "ends of the adapter")


def element_of(x: T, base: T) -> bool:
    """x is an element of a dict or list attribute."""
    x, b = plain(x), plain(base)
    if any(k.k == "slice" or k.k == "comp" and len(k.a) > 3 and k.a[3] for k in walk_term(x)) and not _isa_comp(x):
        return False
    return any(k is b for k in walk_term(x)) and x is not b and x.k in ("item", "elem", "op", "elem_idx")


def _isa_comp(x: T) -> bool:
    """Only selects elements by their type, which the rule looks at itself."""
    if any(k.k == "slice" for k in walk_term(x)):
        return False
    return all(is_op(c, "isa") or is_op(c, "not") and is_op(c.a[1], "isa") for k in walk_term(x) if k.k == "comp" and len(k.a) > 3 for c in k.a[3])


def empty_loop(p: Path, base: T, until: Ev | None = None) -> bool:
    b = plain(base)
    evs = p.events if until is None else before(p, until)
    return any(e.kind == "loopzero" and e.recv is not None and any(k is b for k in walk_term(plain(e.recv))) for e in evs)


def excluded(p: Path, base: T, cls: str, outcome: bool = True) -> bool:
    return any(
        is_op(k, "isa") and v == outcome and tail(k.a[2].a[0]) == cls and element_of(plain(k.a[1]), base) for k, v in p.pc.items()
    )


def flag_of_end(chk: Check, paths: list[Path]) -> str:
    """The attribute that remembers that the terminated event was sent."""
    names: set[str] | None = None
    for p in paths:
        if any(sent_is(e, "TerminatedEvent") for e in client_sends(p.events)):
            mine = {e.callee for e in p.events if e.kind == "setattr" and e.recv is SELF and e.args[0].k == "const" and isinstance(e.args[0].a[0], bool)}
            names = mine if names is None else names & mine
    if not names or len(names) != 1:
        return ""
    return names.pop()


def c11(chk: Check) -> None:
    """How a session ends.

    MPQueue.stop ends its connection (C05, C06); sending to the client is C12."""
    STOP = f"{SERVER}.stop"
    pend = mk("attr", SELF, outstanding(chk), 0)
    conn = mk("attr", SELF, connection_attr(chk), 0)
    paths = returns(chk.walk(STOP, raise_mode="none", opaque=[QMSG, DTS, MSTOP]))
    flag = flag_of_end(chk, paths)
    chk.must(flag, "terminated-once", STOP, "no attribute remembers on every path that the terminated event was sent")
    paths = returns(chk.walk(STOP, raise_mode="none", opaque=[QMSG, DTS, MSTOP], reads=[flag] if flag else []))
    n = d = 0
    for p in paths:
        term = [e for e in client_sends(p.events) if sent_is(e, "TerminatedEvent")]
        chk.must(len(term) <= 1, "terminated-once", STOP, "more than one terminated event is sent", p)
        if flag:
            was = truth_of(p.pc, mk("attr", SELF, flag, 0))
            gets = [e for e in p.events if e.kind == "getattr" and e.callee == flag]
            puts = sets(p.events, flag, SELF)
            if term:
                n += 1
                ok = was is False and len(puts) == 1 and puts[0].args[0] is TRUE and gets
                chk.must(ok, "terminated-once", term[0], "the terminated event is sent without finding and setting the mark that it was", p)
                if ok:
                    common = set(held(puts[0]))
                    for g in gets:
                        common &= set(held(g))
                    chk.must(common, "mark-is-atomic", puts[0], "the mark that the terminated event was sent is tested and set without holding a lock, two threads can both send it", p)
                    for lock in list(common)[:1]:
                        first = min(p.index(g) for g in gets)
                        last = p.index(puts[0])
                        rel = [e for e in p.events[min(first, last) : max(first, last)] if e.kind == "release" and same(e.recv, lock)]
                        chk.must(not rel, "mark-is-atomic", puts[0], "the lock is released between testing and setting the mark", p)
            else:
                chk.must(was is True, "terminated-sent", STOP, "the session ends without a terminated event", p)
        # the pending disconnect request
        resp = [e for e in client_sends(p.events) if sent_is(e, "DisconnectResponse")]
        for e in resp:
            d += 1
            rs = plain(sent(e).get("request_seq"))
            el = rs.a[0] if isinstance(rs, T) and rs.k == "attr" and rs.a[1] == "seq" else None
            chk.must(el is not None and element_of(el, pend), "disconnect-answer-matches", e, "the disconnect response does not answer an outstanding request", p)
            only = el is not None and (isa_of(p.pc, el, "DisconnectRequest") is True or any(is_op(c, "isa") and tail(c.a[2].a[0]) == "DisconnectRequest" for k in walk_term(el) if k.k == "comp" for c in k.a[3]))
            chk.must(only, "disconnect-answer-matches", e, "a disconnect response is sent for another request", p)
            if term:
                chk.must(p.index(e) < p.index(term[0]), "answered-before-terminated", e, "the disconnect request is answered after the terminated event", p)
        errs = [e for e in client_sends(p.events) if sent_is(e, "ErrorResponse")]
        if not resp:
            end = term[0] if term else None
            chk.must(empty_loop(p, pend, end) or excluded(p, pend, "DisconnectRequest", False) or filtered_loop(p, pend, end), "disconnect-answered", STOP, "an outstanding disconnect request is not answered before the session ends", p)
        if errs and resp:
            chk.must(p.index(resp[0]) < p.index(errs[0]), "disconnect-answered", resp[0], "an outstanding disconnect request is answered by an error first", p)
        # what is closed
        stops = [plain(e.recv) for e in p.events if e.callee == MSTOP]
        launch = [k for k in map(plain, held_queues(chk)) if k is not plain(conn)]
        if truth_of(p.pc, mk("param", "from_debuggee")) is not True and truthy_or_given(p.pc, conn) is not False:
            chk.must(plain(conn) in stops, "debuggee-closed", STOP, "the connection to the debuggee is not closed", p)
        for q in launch:
            if truthy_or_given(p.pc, q) is not False:
                chk.must(q in stops, "launch-closed", STOP, "the launch connection is not closed", p)
    chk.floor(n, 1, "terminated events")
    chk.floor(d, 1, "answers to a disconnect request")
    seen = visited(paths)
    for f, node in sites(chk.program, [ADAPTER, DEBUGGEE, STRAT, CALLBACK, MPQ], is_call_of("TerminatedEvent")):
        chk.must((f.module.rel, node.lineno) in seen, "terminated-once", f, f"line {node.lineno} sends another terminated event")
    for f, node in sites(chk.program, [ADAPTER], mutates(flag) if flag else lambda n: False):
        chk.must(f.name == "__init__" or (f.module.rel, node.lineno) in seen, "terminated-once", f, f"line {node.lineno} resets the mark that the terminated event was sent")

    # --- the loop
    n = eof = 0
    for p in loop_paths(chk):
        for r in reads_of(p):
            if truthy_or_given(p.pc, r.res) is False:
                eof += 1
                rest = after(p, r)
                chk.must(p.flow != "loop" and not reads_in(rest), "ends-at-end-of-input", r, "the adapter keeps reading after its input was closed", p)
        for e in [e for e in p.events if e.callee == MSEND and e.args]:
            if isa_of(p.pc, e.args[0], "DisconnectRequest") is not True:
                continue
            n += 1
            closes = [c for c in after(p, e) if c.callee == MSTOP and same(c.recv, e.recv)]
            chk.must(closes, "disconnect-closes", e, "the connection is kept after a disconnect request was relayed", p)
            outer = [x for x in after(p, e) if x.kind == "loopend" and x.again is not None and any(y.kind == "loop" and y.res is x.res for y in p.events[: p.index(reads_of(p)[0])])] if reads_of(p) else []
            chk.must(p.flow != "loop" and not reads_in(after(p, e)) and all(True not in x.again for x in outer), "ends-after-disconnect", e, "the adapter keeps reading after a disconnect request", p)
        for e in [e for e in p.events if e.callee == MSEND and e.args]:
            if isa_of(p.pc, e.args[0], "DisconnectRequest") is None:
                chk.must(False, "ends-after-disconnect", e, "a disconnect request is relayed like any other request, without ending the session", p)
    chk.floor(n, 1, "relays of a disconnect request")
    chk.floor(eof, 1, "ends of the input")
    for p in chk.walk(START, raise_mode="try", opaque=[dispatcher(chk, SERVER), NEXT, RECV, MSEND, MSTOP, STOP]):
        for e in [e for e in p.events if e.callee == MSEND and e.args and isa_of(p.pc, e.args[0], "DisconnectRequest") is True]:
            closes = [c for c in after(p, e) if c.callee == MSTOP]
            chk.must(closes or p.flow == "raise", "disconnect-closes", e, "the connection is kept when relaying the disconnect request fails", p)


def reads_in(events) -> list[Ev]:
    return [e for e in events if e.kind == "call" and e.name in ("read", "readline", "read1", "recv", "readinto") and e.recv is None or e.kind == "call" and ".stdin" in e.callee]


def reads_of(p: Path) -> list[Ev]:
    return reads_in(p.events)


def filtered_loop(p: Path, base: T, until: Ev | None) -> bool:
    """A loop over only the disconnect requests was empty."""
    b = plain(base)
    evs = p.events if until is None else before(p, until)
    seen = any(e.kind == "loop" and e.callee == "comprehension" and e.recv is not None and any(k is b for k in walk_term(plain(e.recv))) for e in evs)
    for k, v in p.pc.items():
        x = plain(k)
        if is_op(x, "truthy") and not v and x.a[1].k == "comp" and any(c is b for c in walk_term(x)) and _isa_comp(x.a[1]):
            return True
    return False if not seen else any(e.kind == "loopzero" and e.recv is not None and plain(e.recv).k == "comp" and any(c is b for c in walk_term(plain(e.recv))) for e in evs)


def held_queues(chk: Check) -> list[T]:
    """The attributes of the server that hold a connection."""
    res = []
    c = chk.program.cls(SERVER)
    for f in c.all_funcs:
        for node in ast.walk(f.node):
            if isinstance(node, (ast.AnnAssign, ast.Assign)):
                tgts = [node.target] if isinstance(node, ast.AnnAssign) else node.targets
                for tg in tgts:
                    if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                        ty = chk.program.attr_type(SERVER, tg.attr)
                        if ty and ty[0] == "cls" and ty[1] in chk.program.classes and chk.program.is_subclass(ty[1], f"{MPQ}.MPQueue"):
                            x = mk("attr", SELF, tg.attr, 0)
                            if x not in res:
                                res.append(x)
    return res


def c12(chk: Check) -> None:
    """What is written to the adapter's standard output.

    Standard output is only written through sys.stdout, print, os.write or an inherited descriptor of a child process;
    the logging module writes to standard error or the file it is given."""
    S2C = f"{SERVER}.send_to_client"
    n = 0
    all_paths: list[Path] = []
    for cls_fn in (S2C,):
        paths = chk.walk(cls_fn, raise_mode="none", opaque=[QMSG, DTS])
        all_paths += paths
        for p in returns(paths):
            n += 1
            q = client_sends(p.events)
            d = [e for e in p.events if e.callee == DTS]
            w = [e for e in p.events if stdout_call(e, "write", "writelines", "send", "sendall")]
            fl = [e for e in p.events if stdout_call(e, "flush")]
            chk.must(len(q) == 1 and same(q[0].args[0], mk("param", "msg")), "queued-once", cls_fn, "a message is not queued exactly once", p)
            chk.must(len(w) == 1, "written-once", cls_fn, f"a message is written {len(w)} times", p)
            if len(q) != 1 or len(w) != 1 or not d:
                chk.must(d, "written-once", cls_fn, "the framed data is not fetched", p)
                continue
            data = unver(w[0].args[0])
            ok = any(same(data, x.res) for x in d) or truth_of(p.pc, d[-1].res) is False and data.k == "const" and not data.a[0]
            chk.must(ok and len(d) == 1, "whole-frame-written", w[0], f"what is written is not the framed data: {show(data)[:60]}", p)
            chk.must(p.index(q[0]) < p.index(d[0]) < p.index(w[0]), "in-order", w[0], "queueing, fetching and writing are not in this order", p)
            chk.must(any(p.index(f) > p.index(w[0]) for f in fl), "flushed", w[0], "a frame is written but not flushed", p)
            steps = [q[0], d[0], w[0]] + [f for f in fl if p.index(f) > p.index(w[0])][:1]
            locks = set(held(steps[0]))
            for x in steps[1:]:
                locks &= set(held(x))
            between = p.events[p.index(steps[0]) : p.index(steps[-1])]
            kept = [x for x in locks if not any(e.kind == "release" and same(e.recv, x) for e in between)]
            chk.must(kept, "one-step", w[0], "numbering, framing, writing and flushing are not done under one lock that is held throughout", p)
    chk.floor(n, 1, "paths sending a message to the client")
    locks = {k for p in all_paths for e in p.events if e.callee == QMSG for k in held(e)}
    made = {}
    for p in returns(chk.walk(f"{SERVER}.__init__", raise_mode="none")):
        for e in p.events:
            if e.kind == "setattr" and e.recv is SELF:
                made[e.callee] = e.args[0]
    for x in locks:
        r, names = attr_path(x)
        v = made.get(names[0]) if r is SELF and len(names) == 1 else None
        chk.must(v is not None and v.k in ("new", "call") and match(v.a[0], ["threading.Lock", "threading.RLock"]) or x.k == "glob", "one-lock", S2C, "the lock is not one lock per server made when it is created")
    seen = visited(all_paths)
    for f, node in sites(chk.program, [ADAPTER], is_call_of("queue_msg", "data_to_send")):
        chk.must((f.module.rel, node.lineno) in seen, "only-one-writer", f, f"line {node.lineno} queues or fetches frames outside of send_to_client")

    # --- nothing else
    mods = [m for m in chk.program.modules if m in ADAPTER_MODULES or m.startswith("ansibug.dap")] + [f"{PKG}.__main__"]
    chk.floor(len(mods), 8, "modules in the adapter process")
    for f, node in sites(chk.program, mods, writes_stdout):
        ok = (f.module.rel, node.lineno) in seen or is_local_stdout(f, node, seen)
        chk.must(ok, "nothing-else-on-stdout", f, f"line {node.lineno} writes to standard output: {ast.unparse(node)[:60]}")


def stdout_call(e: Ev, *names: str) -> bool:
    if e.kind != "call" or e.name not in names:
        return False
    if "stdout" in e.callee:
        return True
    return e.recv is not None and any(k.k in ("glob", "attr") and "stdout" in str(k.a[0] if k.k == "glob" else k.a[1]) for k in walk_term(e.recv))


def writes_stdout(n: ast.AST) -> bool:
    if isinstance(n, ast.Attribute) and n.attr in ("stdout", "__stdout__") and isinstance(n.value, ast.Name) and n.value.id == "sys":
        return True
    if isinstance(n, ast.Call):
        fn = ast.unparse(n.func)
        if fn in ("print", "builtins.print"):
            return not any(k.arg == "file" and "stdout" not in ast.unparse(k.value) and ast.unparse(k.value) != "None" for k in n.keywords)
        if fn in ("os.write", "os.writev") and n.args and ast.unparse(n.args[0]) in ("1", "sys.stdout.fileno()"):
            return True
        if fn in ("os.system", "subprocess.run", "subprocess.Popen", "subprocess.call", "subprocess.check_call", "os.popen", "pprint.pprint"):
            return not any(k.arg == "stdout" for k in n.keywords) and fn != "os.popen"
        if fn.endswith("print_exc") or fn.endswith("print_stack"):
            return any(k.arg == "file" and "stdout" in ast.unparse(k.value) for k in n.keywords)
    return False


def is_local_stdout(f: FuncInfo, node: ast.AST, seen: set) -> bool:
    """sys.stdout is only kept in a local name whose uses are the analysed writes."""
    for st in ast.walk(f.node):
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None and node in ast.walk(st.value):
            tg = st.targets[0] if isinstance(st, ast.Assign) else st.target
            if isinstance(tg, ast.Name):
                uses = [u for u in ast.walk(f.node) if isinstance(u, ast.Name) and u.id == tg.id and isinstance(u.ctx, ast.Load)]
                return all((f.module.rel, u.lineno) in seen for u in uses)
    for st in ast.walk(f.node):
        if isinstance(st, ast.Return) and st.value is not None and node in ast.walk(st.value):
            return True
    return False


ADDRESS = f"{MPQ}.MPQueue.address"
SERVERQ = f"{MPQ}.ServerMPQueue"
CLIENTQ = f"{MPQ}.ClientMPQueue"
CONNECT_BOUNDARY = [QMSG, DTS, MSEND, MSTOP, ADDRESS, f"{SERVERQ}.__init__", f"{CLIENTQ}.__init__", f"{SERVERQ}.start", f"{CLIENTQ}.start"]


def script_parts(x: T) -> list:
    """The text and the values a script is made of."""
    res: list = []
    for c in parts_of(x):
        if c.k == "const":
            if res and isinstance(res[-1], str):
                res[-1] += c.a[0]
            else:
                res.append(c.a[0])
        else:
            res.append(c)
    return res


def parts_of(x: T) -> list[T]:
    x = unver(x)
    if x.k == "cat":
        return [p for i in x.a for p in parts_of(i)]
    return [x]


def quoted(x: T) -> T | None:
    """The value that is quoted for the shell."""
    x = unver(x)
    if x.k in ("call", "op") and match(str(x.a[0]), ["shlex.quote"]):
        v = x.a[1]
        if x.k == "call":
            v = x.a[2][0] if isinstance(x.a[2], tuple) else x.a[2]
        return v
    return None


def decoded(x: T) -> T | None:
    """The text that is embedded in base64."""
    x = unver(x)
    while is_op(x, "decode", "str", "encode"):
        x = unver(x.a[1])
    if x.k in ("call", "op") and match(str(x.a[0]), ["base64.b64encode", "base64.standard_b64encode", "base64.urlsafe_b64encode"]):
        v = x.a[1] if x.k == "op" else (x.a[2][0] if isinstance(x.a[2], tuple) else x.a[2])
        v = unver(v)
        while is_op(v, "encode", "bytes"):
            v = unver(v.a[1])
        return v
    return None


def without_scheme(x: T) -> T | None:
    """The address a text is the path of."""
    x = plain(x)
    if x.k == "slice" and x.a[2] is NONE and x.a[1].k == "const" and x.a[1].a[0] == len("uds://"):
        return x.a[0]
    if x.k in ("call", "op") and "removeprefix" in str(x.a[0]) and any(k.k == "const" and k.a[0] == "uds://" for k in walk_term(x)):
        return x
    if any(k.k in ("call", "op") and ("split" in str(k.a[0]) or "partition" in str(k.a[0]) or "urlparse" in str(k.a[0])) for k in walk_term(x)):
        return x
    return None


def address_of(x: T | None) -> T | None:
    """The queue an address is of."""
    if x is None:
        return None
    for k in walk_term(plain(x)):
        if k.k == "call" and k.a[0] == ADDRESS:
            return k.a[1]
    return None


def c30(chk: Check) -> None:
    """The launch script.

    shlex.quote and base64 produce text the shell takes as one word; mkstemp creates a file only its owner can access.
    The shell runs the trap set for EXIT on every exit."""
    f = handler(chk, SERVER, "LaunchRequest")
    n = 0
    for p in chk.walk(f, raise_mode="none", opaque=CONNECT_BOUNDARY):
        runs = [e for e in client_sends(p.events) if sent_is(e, "RunInTerminalRequest")]
        if p.flow != "ret":
            chk.must(not runs, "asked-once", f, "the client is asked to run a script although the request failed", p)
            continue
        chk.must(len(runs) == 1, "asked-once", f, f"the client is asked {len(runs)} times to run the script", p)
        if len(runs) != 1:
            continue
        run = runs[0]
        n += 1
        # --- the file
        made = [e for e in p.events if e.kind in ("call", "new") and match(e.callee, ["tempfile.mkstemp", "tempfile.NamedTemporaryFile"])]
        other = [e for e in p.events if e.kind in ("call", "new") and match(e.callee, ["builtins.open", "io.open", "os.open", "pathlib.Path.write_text", "pathlib.Path.open", "tempfile.mktemp"]) and p.index(e) < p.index(run)]
        chk.must(made and not any(match(e.callee, ["tempfile.mktemp"]) for e in other), "owner-only", run, "the script is not created as a new file only its owner can access", p)
        modes = [e for e in p.events if e.kind == "call" and e.name in ("fchmod", "chmod", "lchmod")]
        for e in modes:
            m = next((a.a[0] for a in reversed(e.args) if a.k == "const" and isinstance(a.a[0], int)), None)
            chk.must(m is not None and not m & 0o077, "owner-only", e, f"the script is made accessible to others: {m if m is None else oct(m)}", p)
        chk.must(any(a.k == "const" and isinstance(a.a[0], int) and a.a[0] & 0o500 == 0o500 for e in modes for a in e.args if p.index(e) < p.index(run)), "executable", run, "the script is not executable when the client is asked to run it", p)
        # --- complete before it is run
        writes = [e for e in p.events if e.kind == "call" and e.name in ("write", "writelines", "write_text") and e.recv is not None and any(any(k is plain(mk_.res) for k in walk_term(plain(e.recv))) for mk_ in made)]
        chk.must(len(writes) == 1, "written-once", run, f"the script is written {len(writes)} times", p)
        if len(writes) != 1:
            continue
        w = writes[0]
        closed = [e for e in after(p, w) if (e.kind == "cm_exit" or e.kind == "call" and e.name == "close") and (same(e.recv, w.recv) or e.args and any(same(k, m.res) for m in made for k in walk_term(e.args[0])))]
        chk.must(closed and p.index(closed[0]) < p.index(run), "complete-before-run", run, "the client is asked to run the script before it is written and closed", p)
        # --- what the client is asked to run
        o = sent(run)
        args = o.get("args")
        items = args.fields if isinstance(args, Obj) else []
        name = plain(items[0]) if items and isinstance(items[0], T) else None
        chk.must(name is not None and any(any(k is plain(m.res) for k in walk_term(name)) for m in made), "runs-the-script", run, "the client is not asked to run the script", p)
        msg = mk("param", f.params[1].arg if f.params[0].arg == "self" else f.params[0].arg)

        def from_request(x, key: str) -> bool:
            return isinstance(x, T) and any(k.k == "const" and k.a[0] == key for k in walk_term(x)) and any(k is msg for k in walk_term(x))

        def kept(x: T) -> bool:
            """Nothing of it is left out or changed on the way."""
            for k in walk_term(x):
                if k.k in ("slice", "gen") or is_op(k, "filter", "map", "str", "slice"):
                    return False
                if k.k == "comp":
                    elt = k.a[1]
                    if k.a[3] or len(k.a[2]) != 1:
                        return False
                    if elt.k == "tuple" and len(elt.a) == 2:
                        if elt.a[0].k != "elem" or show(elt.a[1]) != f"{show(elt.a[0].a[0])}[{show(elt.a[0])}]":
                            return False
                    elif elt.k != "elem":
                        return False
            return True

        pb = items[1] if len(items) > 1 else None
        ok = len(items) == 3 and from_request(pb, "playbook") and items[2].k == "star" and from_request(items[2], "args") and not any(k.k in ("slice", "comp", "gen") or is_op(k, "sorted", "reversed", "set", "filter", "map", "frozenset") for k in walk_term(items[2]))
        if isinstance(args, Obj) and len(items) == 2 and from_request(pb, "playbook"):
            ok = any(v and is_op(k, "truthy") is False for k, v in p.pc.items()) or any(not v and from_request(k, "args") for k, v in p.pc.items())
        chk.must(ok, "arguments-unchanged", run, "the script is not run with the playbook followed by the arguments of the request", p)
        for key, field in (("cwd", "cwd"), ("env", "env")):
            chk.must(from_request(o.get(field), key) and kept(o.get(field)), "environment-passed", run, f"the {key} of the request is not what the script is run with", p)
        # --- the script itself
        sp = script_parts(w.args[0])
        text = "".join(x if isinstance(x, str) else f"\0{i}\0" for i, x in enumerate(sp))
        vals = {f"\0{i}\0": x for i, x in enumerate(sp) if not isinstance(x, str)}
        check_script(chk, p, w, text, vals, f)
    chk.floor(n, 2, "paths creating a launch script")


def check_script(chk: Check, p: Path, w: Ev, text: str, vals: dict, f: FuncInfo) -> None:
    words = {}
    for k, v in vals.items():
        q, d = quoted(v), decoded(v)
        words[k] = ("quote", q) if q is not None else ("b64", d) if d is not None else None
        chk.must(words[k] is not None, "values-quoted", w, f"a value is put into the script unquoted: {show(v)[:60]}", p)
    lines = text.split("\n")
    chk.must(lines[0].startswith("#!/bin/") and "sh" in lines[0], "is-a-shell-script", w, "the script has no interpreter line", p)
    funcs: dict[str, str] = {}
    m = re.search(r"^\s*(?:function\s+)?([A-Za-z_]\w*)\s*\(\)\s*\{(.*?)^\}", text, re.M | re.S)
    while m:
        funcs[m.group(1)] = m.group(2)
        text2 = text[: m.start()] + "\n" * m.group(0).count("\n") + text[m.end() :]
        text = text2
        m = re.search(r"^\s*(?:function\s+)?([A-Za-z_]\w*)\s*\(\)\s*\{(.*?)^\}", text, re.M | re.S)
    cmds = [c.strip() for c in text.split("\n")]
    cmds = [c for c in cmds if c and not c.startswith("#")]
    traps = [(i, c.split()) for i, c in enumerate(cmds) if c.split()[0] == "trap"]
    on_exit = [(i, c) for i, c in traps if "EXIT" in c[2:] or "0" in c[2:]]
    chk.must(on_exit and on_exit[-1][1][1].strip("'\"") in funcs and all(c[1] not in ("-", "''", '""') for _, c in traps), "end-reported", w, "the script does not report its end on every exit", p)
    body = funcs.get(on_exit[-1][1][1].strip("'\""), "") if on_exit else ""
    socks = re.findall(r"\0\d+\0", body)
    b64 = [words[k][1] for k in socks if words.get(k) and words[k][0] == "b64"]
    plainq = [words[k][1] for k in socks if words.get(k) and words[k][0] == "quote"]
    chk.must(".connect(" in body and "AF_UNIX" in body and (b64 and "b64decode" in body), "end-reported", w, "the script does not connect to the adapter when it ends", p)
    stored = [e for e in p.events if e.kind == "setattr" and e.recv is SELF and e.args[0].k == "new" and match(e.args[0].a[0], [SERVERQ])]
    path = without_scheme(b64[0]) if b64 else None
    queue = address_of(b64[0]) if b64 else None
    debuggee_q = [e for e in stored if e.callee == connection_attr(chk)]
    launch_q = [e for e in stored if e not in debuggee_q]

    def is_queue(x: T | None, stored_as: list[Ev]) -> bool:
        if x is None:
            return False
        root_, names = attr_path(x)
        return any(same(x, e.args[0]) or root_ is SELF and names == [e.callee] for e in stored_as)

    chk.must(path is not None and is_queue(queue, launch_q), "end-reported", w, "the script does not report its end to the launch socket", p)
    py = [words[k][1] for k in socks if words.get(k) and words[k][0] == "quote"]
    chk.must(py and is_sys_executable(py[0]), "own-python", w, "the end is not reported with the adapter's own Python", p)
    # the commands, in order
    removal = next((i for i, c in enumerate(cmds) if re.fullmatch(r'(?:/bin/)?(?:rm(?: -f)?|unlink)(?: --)? "\$0"', c)), None)
    start = next((i for i, c in enumerate(cmds) if c.startswith("\0")), None)
    chk.must(start is not None, "starts-ansibug", w, "the script does not start Python", p)
    chk.must(removal is not None and start is not None and removal < start, "removes-itself", w, "the script does not delete itself before the playbook starts", p)
    chk.must(bool(on_exit) and start is not None and on_exit[0][0] < start and (removal is None or on_exit[0][0] < removal or "set -e" not in cmds), "end-reported", w, "the end is only reported after the playbook was started", p)
    if start is None:
        return
    cmd = cmds[start]
    chk.must(cmd.endswith(' "$@"') and cmd.count("$@") == 1 and not re.search(r"[&|;><]", cmd), "arguments-unchanged", w, "the script does not pass its arguments on unchanged", p)
    chk.must(len([c for c in cmds if "\0" in c]) == 1, "starts-ansibug", w, "the script starts more than one command", p)
    seq = re.findall(r"\0\d+\0", cmd)
    rest = re.sub(r"\0\d+\0", "", cmd).replace('"$@"', "").strip()
    chk.must(not rest.replace("-", "").replace("m", "").strip() or rest.split()[:2] == ["-m", "ansibug"], "starts-ansibug", w, f"the command has unexpected parts: {rest[:40]}", p)
    argv: list = []
    for tok in re.findall(r"\0\d+\0|[^\s\0]+", cmd.replace('"$@"', "")):
        argv.append(unconst(words[tok][1]) if tok in words and words[tok] else tok)
    flat: list = []
    for a in argv:
        flat.extend(a if isinstance(a, list) else [a])
    chk.must(flat and is_sys_executable(flat[0]), "own-python", w, "the playbook is not started with the adapter's own Python", p)
    chk.must(flat[1:5] == ["-m", "ansibug", "connect", "--addr"] or ["-m", "ansibug", "connect"] == flat[1:4] and "--addr" in flat, "starts-ansibug", w, f"the command is not ansibug in connect mode: {[x for x in flat[1:5] if isinstance(x, str)]}", p)
    if "--addr" in flat:
        i = flat.index("--addr")
        x = flat[i + 1] if i + 1 < len(flat) else None
        chk.must(isinstance(x, T) and plain(x).k == "call" and plain(x).a[0] == ADDRESS and is_queue(plain(x).a[1], debuggee_q), "adapter-address", w, "the playbook is not connected to the adapter's socket", p)


def unconst(x):
    if isinstance(x, T) and x.k == "const":
        return x.a[0]
    return x


def is_sys_executable(x) -> bool:
    return isinstance(x, T) and any(k.k in ("glob",) and k.a[0].endswith("sys.executable") or k.k == "attr" and k.a[1] == "executable" for k in walk_term(x))


DEBUGGER = f"{DEBUGGEE}.AnsibleDebugger"
SSTART, CSTART = f"{SERVERQ}.start", f"{CLIENTQ}.start"


def config_sends(events) -> list[Ev]:
    return [e for e in events if e.callee == MSEND and isinstance(e.sarg(0, "data"), Obj) and obj_is(e.sarg(0, "data").get("data"), "DebugConfiguration")]


def request_value(x, *keys: str) -> bool:
    """A value read from the arguments of the request under one of the keys and no other."""
    if not isinstance(x, T):
        return False
    ks = {k.a[0] for k in walk_term(x) if k.k == "const" and isinstance(k.a[0], str) and k.a[0] in REQUEST_KEYS}
    return bool(ks) and ks <= set(keys)


REQUEST_KEYS = {
    "processId", "address", "connectTimeout", "useTls", "tlsVerification", "tlsCertificate", "tlsKey", "tlsKeyPassword", "pathMappings",
    "localRoot", "remoteRoot", "playbook", "args", "cwd", "env", "console", "logFile", "logLevel",
}


def check_mappings(chk: Check, p: Path, where: Ev, value) -> None:
    """The value is the path mappings of the request, in order."""
    made = [e for e in p.events if e.kind == "new" and tail(e.callee) == "PathMapping"]
    for e in made:
        kw = kwargs_of(e, ["local_root", "remote_root"])
        ok = all(k in kw and request_value(kw[k], "pathMappings", key) and key in {c.a[0] for c in walk_term(kw[k]) if c.k == "const"} for k, key in (("local_root", "localRoot"), ("remote_root", "remoteRoot")))
        chk.must(ok, "mappings-of-request", e, "a path mapping does not hold the local and remote root of the request's mapping", p)
    looped = any(e.kind == "loop" and e.recv is not None and request_value(e.recv, "pathMappings") for e in p.events)
    if isinstance(value, Obj):
        value = value.fields if value.kind == "list" else value
    terms = value if isinstance(value, list) else [value]
    objs = [x for x in terms if obj_is(x, "PathMapping")]
    comps = [x for x in terms if isinstance(x, T) and any(k.k == "comp" and not k.a[3] and request_value(k.a[2][0], "pathMappings") for k in walk_term(x))]
    if looped:
        chk.must(objs or comps, "mappings-of-request", where, "the path mappings of the request are not in the configuration", p)
    else:
        chk.must(not objs, "mappings-of-request", where, "the configuration holds mappings that are not in the request", p)


def launch_details(chk: Check) -> tuple[str, dict, str]:
    """(attribute the launch is kept in, what is kept, the launch handler)."""
    f = handler(chk, SERVER, "LaunchRequest")
    found: dict[str, list] = {}
    for p in returns(chk.walk(f, raise_mode="none", opaque=CONNECT_BOUNDARY)):
        for run in [e for e in client_sends(p.events) if sent_is(e, "RunInTerminalRequest")]:
            kept = [e for e in after(p, run) if e.kind == "setitem" and same(e.args[0], run.res)]
            chk.must(len(kept) == 1, "launch-kept", f, "the launch is not kept under the number of the request sent to the client", p)
            for e in kept:
                r, names = attr_path(e.recv)
                o = e.sarg(1)
                if r is not SELF or len(names) != 1 or not isinstance(o, Obj):
                    raise AnalysisError("anchor vanished: how a launch is kept until its script was started")
                found.setdefault(names[0], []).append((p, e, o))
    if len(found) != 1:
        raise AnalysisError(f"anchor vanished: launches are kept in {sorted(found)}")
    name = next(iter(found))
    return name, found[name], f


def kept_value(o: Obj, names: list[str]):
    x = o
    for n in names:
        if not isinstance(x, Obj) or x.kind != "obj":
            return None
        x = x.get(n)
    return x


def c31(chk: Check) -> None:
    """How a launch and an attach complete.

    ClientMPQueue.start and ServerMPQueue.start return when the connection is established, or fail (C35, C41)."""
    # --- attach
    f = handler(chk, SERVER, "AttachRequest")
    msg = mk("param", f.params[1].arg)
    conn = connection_attr(chk)
    n = 0
    for p in chk.walk(f, raise_mode="all", noraise=["builtins.open"], opaque=CONNECT_BOUNDARY + ["ansibug._tls.create_client_tls_context", f"{ADAPTER}.AttachArguments.from_json", f"{ADAPTER}.AttachArguments.get_connection_tuple", f"{SERVER}.send_to_client"]):
        answers = [e for e in p.events if e.callee == f"{SERVER}.send_to_client" and obj_is(e.sarg(0), "AttachResponse")]
        starts = [e for e in p.events if e.callee in (CSTART, SSTART, f"{MPQ}.MPQueue.start")]
        ok_starts = [e for e in starts if not e.raised]
        for a in answers:
            n += 1
            chk.must(any(p.index(s) < p.index(a) for s in ok_starts), "answered-when-connected", a, "an attach request is answered before its connection is established", p)
            chk.must(same(a.sarg(0).get("request_seq"), mk("attr", msg, "seq", ())), "answers-its-request", a, "the attach response does not name its request", p)
        if p.flow == "ret":
            chk.must(len(answers) == 1, "answered-once", f, f"an attach request is answered {len(answers)} times", p)
            cfg = config_sends(p.events)
            chk.must(len(cfg) == 1 and answers and p.index(cfg[0]) > p.index(answers[0]), "configured-once", f, "the attach response is not followed by exactly one configuration message", p)
            for s in ok_starts:
                kept = [e for e in p.events if e.kind == "setattr" and e.recv is SELF and e.callee == conn and same(e.args[0], s.recv)]
                chk.must(kept or attr_path(s.recv)[1] == [conn], "connection-kept", s, "the connection that is started is not the one that is used", p)
    chk.floor(n, 1, "attach responses")
    n = 0
    for p in returns(chk.walk(f, raise_mode="none", opaque=CONNECT_BOUNDARY + ["ansibug._tls.create_client_tls_context", f"{ADAPTER}.AttachArguments.get_connection_tuple", f"{SERVER}.send_to_client"])):
        for e in config_sends(p.events):
            n += 1
            o = e.sarg(0)
            chk.must(category_ok(chk, o), "configuration-recognised", e, "the configuration message does not have the category the debuggee looks for", p)
            check_mappings(chk, p, e, kept_value(o, ["data", "path_mappings"]))
    chk.floor(n, 2, "configurations sent on attach")

    n = 0
    for p in returns(chk.walk(CSTART, raise_mode="none", opaque=[f"{MPQ}.MPQueue.start", f"{SOCK}.SocketHelper.wrap_tls", f"{SOCK}.SocketHelper.recv", f"{SOCK}.SocketCancellationToken.connect"])):
        for s in [e for e in p.events if e.callee == f"{MPQ}.MPQueue.start"]:
            n += 1
            got = [e for e in before(p, s) if e.callee == f"{SOCK}.SocketHelper.recv" and truth_of(p.pc, e.res) is True or e.callee == f"{SOCK}.SocketHelper.recv" and compared(p, e.res)]
            chk.must(got, "answered-when-connected", s, "a connection is used although the server did not confirm that it is connected", p)
    chk.floor(n, 2, "connections of a client")

    # --- launch
    attr, kept, lf = launch_details(chk)
    f = handler(chk, SERVER, "RunInTerminalResponse")
    msg = mk("param", f.params[1].arg)
    n = cancelled = 0
    bound = CONNECT_BOUNDARY + [f"{SERVER}.send_to_client", f"{SERVER}.stop", f"{SERVERQ}.stop"]
    for p in chk.walk(f, raise_mode="all", opaque=bound):
        sends_ = [e for e in p.events if e.callee == f"{SERVER}.send_to_client"]
        answers = [e for e in sends_ if obj_is(e.sarg(0), "LaunchResponse")]
        starts = [e for e in p.events if e.callee in (CSTART, SSTART, f"{MPQ}.MPQueue.start")]
        for s in starts:
            q = kept_path(s.recv, attr, msg)
            chk.must(q is not None and all(is_conn(p0, kept_value_raw(o, q), conn) for p0, e0, o in kept), "connection-kept", s, "the connection that is started is not the one of the launch", p)
            cq = s.arg(1, "cancel_queue")
            cp = kept_path(cq, attr, msg) if cq is not None else None
            chk.must(cp is not None and all(is_launch_queue(p0, kept_value_raw(o, cp), conn) for p0, e0, o in kept), "end-of-process-noticed", s, "waiting for the launched process does not notice its end", p)
        for a in answers:
            n += 1
            chk.must(any(p.index(s) < p.index(a) for s in starts if not s.raised), "answered-when-connected", a, "a launch request is answered before its connection is established", p)
            rs = a.sarg(0).get("request_seq")
            q = kept_path(rs, attr, msg) if isinstance(rs, T) else None
            ok = q is not None and q[-1] == "seq" and all(same(kept_value_raw(o, q[:-1]), mk("param", lf.params[1].arg)) for p0, e0, o in kept)
            chk.must(ok, "answers-its-request", a, "the launch response does not name the launch request", p)
        failed = [s for s in starts if s.raised]
        if p.flow == "ret" and not failed:
            chk.must(len(answers) == 1, "answered-once", f, f"a launch request is answered {len(answers)} times", p)
            cfg = config_sends(p.events)
            chk.must(len(cfg) == 1 and answers and p.index(cfg[0]) > p.index(answers[0]), "configured-once", f, "the launch response is not followed by exactly one configuration message", p)
            for e in cfg:
                o = e.sarg(0)
                chk.must(category_ok(chk, o), "configuration-recognised", e, "the configuration message does not have the category the debuggee looks for", p)
                v = kept_value(o, ["data", "path_mappings"])
                q = kept_path(v, attr, msg) if isinstance(v, T) else None
                chk.must(q is not None, "mappings-of-request", e, "the configuration does not hold the path mappings of the launch", p)
                for p0, e0, o0 in kept if q is not None else []:
                    check_mappings(chk, p0, e0, kept_value(o0, q))
        if failed and p.flow == "ret":
            cancelled += 1
            chk.must(any(e.callee == f"{SERVER}.stop" for e in after(p, failed[0])), "end-of-process-noticed", failed[0], "the session goes on although the launched process has ended", p)
            chk.must(not answers, "answered-when-connected", failed[0], "a launch that failed is answered successfully", p)
            got = [e for e in p.events if e.kind == "caught"]
            chk.must(all("CancelledError" in e.callee for e in got), "failure-reported", failed[0], f"a launch that failed for another reason is swallowed: {[tail(e.callee) for e in got]}", p)
    chk.floor(n, 1, "launch responses")
    chk.must(cancelled, "end-of-process-noticed", f, "the end of the launched process is not handled")

    # --- the end of the launched process interrupts the wait
    n = 0
    for p in chk.walk(SSTART, raise_mode="none", opaque=[f"{MPQ}.MPQueue.start", f"{SOCK}.SocketHelper.wrap_tls", f"{SOCK}.SocketHelper.send"]):
        given = truthy_or_given(p.pc, mk("param", "cancel_queue"))
        sel = [e for e in p.events if e.kind == "call" and match(e.callee, ["select.select"])]
        acc = [e for e in p.events if e.kind == "call" and e.callee.endswith("socket.accept")]
        if given is False or not (sel or acc):
            continue
        if any(root(k.a[1]) is mk("param", "cancel_queue") and (is_op(k, "truthy") and not v or is_op(k, "isnone") and v) for k, v in p.pc.items() if is_op(k, "truthy", "isnone")):
            # A given queue has a socket.
            continue
        n += 1
        chk.must(len(sel) >= 1 and (not acc or p.index(sel[0]) < p.index(acc[0])), "end-of-process-noticed", SSTART, "the wait for the connection does not also wait for the end of the process", p)
        for s in sel[:1]:
            rd = s.sarg(0)
            items = rd.fields if isinstance(rd, Obj) else []
            mine = [x for x in items if isinstance(x, T) and any(k is mk("param", "cancel_queue") for k in walk_term(x))]
            chk.must(mine and len(items) >= 2, "end-of-process-noticed", s, "the socket that signals the end of the process is not waited for", p)
        if p.flow == "ret":
            for s in sel[:1]:
                chk.must(cancel_excluded(p, s), "end-of-process-noticed", s, "a connection is accepted although the process may have ended", p)
    chk.floor(n, 2, "waits with a cancel socket")
    cancels = [p for p in chk.walk(SSTART, raise_mode="none", opaque=[f"{MPQ}.MPQueue.start", f"{SOCK}.SocketHelper.wrap_tls", f"{SOCK}.SocketHelper.send"]) if p.flow == "raise" and p.exc and "CancelledError" in p.exc]
    chk.must(cancels, "end-of-process-noticed", SSTART, "the end of the process does not interrupt the wait")

    # --- the debuggee
    f = handler(chk, DEBUGGER, "OutputEvent")
    msg = mk("param", f.params[1].arg)
    n = 0
    paths = returns(chk.walk(f, raise_mode="none", opaque=[f"{DEBUGGER}.queue_msg"]))
    for p in paths:
        init = [e for e in p.events if e.callee == f"{DEBUGGER}.queue_msg" and obj_is(e.sarg(0), "InitializedEvent")]
        cfgs = [e for e in p.events if e.kind == "setattr" and e.recv is SELF and any(k is msg for k in walk_term(e.args[0]))]
        for e in init:
            n += 1
            chk.must(cfgs and p.index(cfgs[0]) < p.index(e), "stored-before-initialised", e, "the debuggee reports that it is initialised before it has stored the configuration", p)
        chk.must(len(init) <= 1 and (init or not cfgs), "initialised-once", f, "the configuration is not followed by one initialised event", p)
        if cfgs:
            v = cfgs[0].args[0]
            chk.must(same(v, mk("attr", msg, "data", ())) or any(same(k, mk("attr", mk("attr", msg, "data", ()), "path_mappings", ())) for k in walk_term(v)), "stored-before-initialised", cfgs[0], "what is stored is not the configuration received", p)
    chk.floor(n, 1, "initialised events")
    seen = visited(paths)
    for g, node in sites(chk.program, [DEBUGGEE, STRAT, CALLBACK, ADAPTER], is_call_of("InitializedEvent")):
        chk.must((g.module.rel, node.lineno) in seen, "initialised-once", g, f"line {node.lineno} reports the debuggee as initialised without a configuration")


def compared(p: Path, x: T) -> bool:
    """The path knows what the value is or how long it is."""
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "eq") and any(same(c, x) for c in q.a[1:]):
            consts = [c.a[0] for c in q.a[1:] if isinstance(c, T) and c.k == "const"]
            if consts and bool(consts[0]) is v:
                return True
    c, coefs = -1, {mk("op", "len", x): 1}
    return implies_ge0(p.pc, (c, coefs))


def category_ok(chk: Check, o: Obj) -> bool:
    want = chk.program.cls(f"{DEBUGGEE}.DebugConfiguration").assigns.get("OUTPUT_CATEGORY")
    got = o.get("category")
    if isinstance(want, ast.Constant) and isinstance(got, T):
        return got.k == "const" and got.a[0] == want.value
    return isinstance(got, T) and "OUTPUT_CATEGORY" in show(got)


def kept_path(x: T | None, attr: str, msg: T) -> list[str] | None:
    """The attributes that lead to a value from what was kept for the answered request."""
    if x is None:
        return None
    r, names = attr_path(plain(x))
    if isinstance(r, T) and r.k == "item" and attr_path(r.a[0])[1] == [attr] and same(r.a[1], mk("attr", msg, "request_seq", ())):
        return names
    return None


def kept_value_raw(o: Obj, names: list[str]):
    v = kept_value(o, names)
    return v.term if isinstance(v, Obj) else v


def is_conn(p: Path, x, conn: str) -> bool:
    if not isinstance(x, T):
        return False
    r, names = attr_path(x)
    return (r is SELF and names == [conn]) or any(e.callee == conn and same(e.args[0], x) for e in p.events if e.kind == "setattr" and e.recv is SELF)


def is_launch_queue(p: Path, x, conn: str) -> bool:
    if not isinstance(x, T):
        return False
    queues = [(e.callee, e.args[0]) for e in p.events if e.kind == "setattr" and e.recv is SELF and e.args[0].k == "new" and match(e.args[0].a[0], [SERVERQ]) and e.callee != conn]
    r, names = attr_path(x)
    return any(same(x, v) or (r is SELF and names == [n]) for n, v in queues)


def cancel_excluded(p: Path, sel: Ev) -> bool:
    """The path knows that the socket that signals the end was not ready."""
    for k, v in p.pc.items():
        x = plain(k)
        if is_op(x, "in") and not v and any(c is mk("param", "cancel_queue") for c in walk_term(x.a[1])) and any(same(c, sel.res) for c in walk_term(x.a[2])):
            return True
        if is_op(x, "in") and v and not any(c is mk("param", "cancel_queue") for c in walk_term(x.a[1])) and any(same(c, sel.res) for c in walk_term(x.a[2])):
            return True
        if is_op(x, "eq", "is") and any(same(c, sel.res) for c in walk_term(x)):
            mine = any(c is mk("param", "cancel_queue") for c in walk_term(x))
            if mine and not v or not mine and v and any(c is SELF for c in walk_term(x)):
                return True
    return False


# What implements each capability: a request the debuggee handles, an attribute of the protocol it honours, or a context it evaluates.
IMPLEMENTED_BY = {
    "supports_configuration_done_request": ("request", ["ConfigurationDoneRequest"]),
    "supports_function_breakpoints": ("request", ["SetFunctionBreakpointsRequest"]),
    "supports_conditional_breakpoints": ("honours", ["SourceBreakpoint", "condition"]),
    "supports_hit_conditional_breakpoints": ("honours", ["SourceBreakpoint", "hit_condition"]),
    "supports_evaluate_for_hovers": ("context", ["hover"]),
    "supports_step_back": ("request", ["StepBackRequest", "ReverseContinueRequest"]),
    "supports_set_variable": ("request", ["SetVariableRequest"]),
    "supports_restart_frame": ("request", ["RestartFrameRequest"]),
    "supports_goto_targets_request": ("request", ["GotoTargetsRequest", "GotoRequest"]),
    "supports_step_in_targets_request": ("request", ["StepInTargetsRequest"]),
    "supports_completions_request": ("request", ["CompletionsRequest"]),
    "supports_terminate_debuggee": ("honours", ["DisconnectRequest", "terminate_debuggee"]),
    "supports_suspend_debuggee": ("honours", ["DisconnectRequest", "suspend_debuggee"]),
    "supports_terminate_request": ("request", ["TerminateRequest"]),
    "supports_clipboard_context": ("context", ["clipboard"]),
}
FILTER_IDS = "_breakpoint_exceptions"
FILTER_MEANING = {"error": r"fail|error", "unreachable": r"unreach", "skip": r"skip"}


def handled_requests(chk: Check) -> set[str]:
    """The requests the debuggee has a handler for that does not always fail."""
    d = dispatcher(chk, DEBUGGER)
    announced = {c for how, what in IMPLEMENTED_BY.values() if how == "request" for c in what}
    table = {tail(q): f for q, f in chk.program.cls(DEBUGGER).dispatch_table(d.rsplit(".", 1)[-1]).items()}
    return {c for c, f in table.items() if c not in announced or returns(slim(chk, f, kinds=("raise",)))}


def attributes_read(chk: Check) -> set[str]:
    res = set()
    for g in functions_of(chk.program, [DEBUGGEE, STRAT]):
        for n in ast.walk(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                res.add(n.attr)
    return res


def could_be(pc: dict, pred, value: str) -> bool:
    """Whether the expression that satisfies pred can have the value on the path."""
    for k, v in pc.items():
        q = plain(k)
        if is_op(q, "eq", "is"):
            consts = [x.a[0] for x in q.a[1:] if isinstance(x, T) and x.k == "const"]
            if consts and any(isinstance(x, T) and pred(x) for x in q.a[1:]) and (consts[0] == value) is not v:
                return False
        elif is_op(q, "in") and pred(q.a[1]):
            text = show(q.a[2])
            if (f"'{value}'" in text) is not v:
                return False
    return True


def evaluates(chk: Check, context: str) -> bool:
    """Whether every evaluate request of a frame with this context evaluates the expression."""
    f = chk.program.func(f"{STRAT}.AnsibleDebugState.evaluate")
    req = mk("param", f.params[1].arg)
    is_context = lambda x: attr_path(x) == (req, ["context"])
    seen = 0
    for p in returns(slim(chk, f, pred=lambda e: e.kind == "call", pins=("context", "frame_id"), opaque=[f"{STRAT}.AnsibleDebugState._safe_evaluate_expression", f"{STRAT}.AnsibleDebugState._template"])):
        if not could_be(p.pc, is_context, context) or truth_of(p.pc, mk("attr", req, "frame_id", ())) is False:
            continue
        seen += 1
        if not any(e.kind == "call" and any(attr_path(a) == (req, ["expression"]) for a in [*e.args, *e.kwargs.values()] if isinstance(a, T)) for e in p.events):
            return False
    return seen > 0


def filters_used(chk: Check) -> dict[str, set[str]]:
    """The filter ids the debuggee knows, and the functions that look at them."""
    res: dict[str, set[str]] = {}
    fs = list(functions_of(chk.program, [DEBUGGEE, STRAT]))

    def mentions_attr(g: t.Any, names: set[str]) -> bool:
        return any(isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.ctx, ast.Load) for n in ast.walk(g.node))

    # Also those that look at them through a helper.
    lookers = {g.qual for g in fs if mentions_attr(g, {FILTER_IDS})}
    helpers = {tail(g.qual) for g in fs if g.qual in lookers and len(g.params) > 1 and not tail(g.qual).startswith("process_message")}
    for g in fs:
        if g.qual not in lookers and not mentions_attr(g, helpers):
            continue
        for p in chk.walk(g, raise_mode="none"):
            terms = [*p.pc]
            if isinstance(p.value, T):
                terms.append(p.value)
            for x in terms:
                for k in walk_term(plain(x)):
                    where = None
                    if k.k == "item":
                        where, key = k.a[0], k.a[1]
                    elif is_op(k, "in"):
                        where, key = k.a[2], k.a[1]
                    elif is_op(k, "get") and len(k.a) > 2:
                        where, key = k.a[1], k.a[2]
                    elif k.k == "call" and tail(str(k.a[0])) == "get" and k.a[2]:
                        where, key = k.a[1], k.a[2][0]
                    if where is not None and attr_path(where)[1][-1:] == [FILTER_IDS] and isinstance(key, T) and key.k == "const" and isinstance(key.a[0], str):
                        res.setdefault(key.a[0], set()).add(g.qual)
    return res


def c40(chk: Check) -> None:
    """What the initialize response announces is what the debuggee implements."""
    f = handler(chk, SERVER, "InitializeRequest")
    handled, read = handled_requests(chk), attributes_read(chk)
    used = filters_used(chk)
    chk.floor(len(used), 3, "exception filters the debuggee looks at")
    chk.floor(len(handled), 12, "requests the debuggee handles")
    contexts = {c: evaluates(chk, c) for c in ("hover", "clipboard")}
    n = 0
    for p in returns(chk.walk(f, raise_mode="none", opaque=[f"{SERVER}.send_to_client", f"{SERVER}.queue_msg"])):
        answers = [o for e in p.events if e.kind == "call" for o in [e.sarg(0, "msg")] if obj_is(o, "InitializeResponse")]
        chk.must(len(answers) == 1, "announced", f, "the initialize request is not answered with one response", p)
        for a in answers:
            caps = a.get("capabilities")
            if not obj_is(caps, "Capabilities"):
                raise AnalysisError("anchor vanished: the capabilities of the initialize response are not known")
            n += 1
            for name, v in caps.fields.items():
                if name == "exception_breakpoints_filters":
                    continue
                if not (isinstance(v, T) and v.k == "const" and (v.a[0] is None or isinstance(v.a[0], bool))):
                    raise AnalysisError(f"the value of the capability {name} is not known: {show(v)}")
                how, what = IMPLEMENTED_BY.get(name, ("unknown", [name]))
                have = (
                    set(what) <= handled if how == "request"
                    else what[-1] in read if how == "honours"
                    else contexts[what[0]] if how == "context"
                    else False
                )
                on = bool(v.a[0])
                chk.must(have or not on, "announced-is-implemented", f, f"{name} is announced but the debuggee does not implement {what[-1]}", p)
                chk.must(on or not have, "implemented-is-announced", f, f"{name} is not announced although the debuggee implements {what[-1]}", p)
            lst = caps.get("exception_breakpoints_filters")
            items = lst.fields if isinstance(lst, Obj) and lst.kind in ("list", "tuple") and not lst.open else None
            if items is None:
                raise AnalysisError("the announced exception filters are not known")
            ids = []
            for x in items:
                if not obj_is(x, "ExceptionBreakpointsFilter"):
                    raise AnalysisError(f"an announced exception filter is not known: {show(x)}")
                i = x.get("filter")
                i = i.a[0] if isinstance(i, T) and i.k == "const" else None
                ids.append(i)
                chk.must(i in used, "filter-is-known", f, f"the filter {i!r} is announced but the debuggee only looks at {sorted(used)}", p)
                cond = x.get("supports_condition")
                chk.must("filter_options" in read or isinstance(cond, T) and cond.k == "const" and not cond.a[0], "announced-is-implemented", f, f"the filter {i!r} announces conditions, which the debuggee ignores", p)
                label = x.get("label")
                text = label.a[0].lower() if isinstance(label, T) and label.k == "const" and isinstance(label.a[0], str) else ""
                meant = [m for m in FILTER_MEANING if i and m in i]
                about = [m for m, r in FILTER_MEANING.items() if re.search(r, text)]
                chk.must(not meant or not about or meant[0] in about, "filter-is-labelled", f, f"the filter {i!r} is labelled {text!r}", p)
            chk.must(len(set(ids)) == len(ids), "filter-is-known", f, f"a filter is announced twice: {ids}", p)
            chk.must(set(used) <= set(ids), "filter-is-announced", f, f"the debuggee looks at {sorted(set(used) - set(ids))}, which no client can turn on", p)
    chk.floor(n, 1, "announced capabilities")
    # The ids a debuggee looks at are the ones the strategy asks for.
    for i, where in sorted(used.items()):
        for w in where:
            words = [m for m in FILTER_MEANING if m in i]
            other = [m for m in FILTER_MEANING if m in w.rsplit(".", 1)[-1]]
            chk.must(not words or not other or words[0] in other, "filter-is-known", chk.program.func(w), f"{tail(w)} looks at the filter {i!r}")
    # A capability that is not mentioned is off.
    cls = next(c for q, c in chk.program.classes.items() if tail(q) == "Capabilities")
    for name, d in cls.assigns.items():
        if name in IMPLEMENTED_BY:
            chk.must(isinstance(d, ast.Constant) and not d.value, "off-by-default", cls.qual, f"{name} is on unless it is turned off")


TIMES = ("time.monotonic", "time.time", "time.perf_counter")


def bounded_by(x, limit: T) -> bool:
    """A wait of x ends when limit has passed: limit, what is left of it, or less."""
    if not isinstance(x, T):
        return False
    x = plain(x)
    if is_op(x, "or") and x.a[2] is NONE:
        return bounded_by(x.a[1], limit)
    if is_op(x, "min") or x.k == "call" and tail(str(x.a[0])) == "min":
        return any(bounded_by(a, limit) for a in (x.a[1:] if x.k == "op" else x.a[2]) if isinstance(a, T))
    if is_op(x, "max") or x.k == "call" and tail(str(x.a[0])) == "max":
        args = [a for a in (x.a[1:] if x.k == "op" else x.a[2]) if isinstance(a, T)]
        return all(bounded_by(a, limit) or a.k == "const" and isinstance(a.a[0], (int, float)) and a.a[0] <= 1 for a in args) and any(bounded_by(a, limit) for a in args)
    if is_op(x, "float") and len(x.a) > 1:
        return bounded_by(x.a[1], limit)
    c, coefs = lin(x)
    if c > 0 or coefs.get(limit) != 1:
        return False
    rest = {k: v for k, v in coefs.items() if k is not limit}
    return all(any(w in show(k) for w in TIMES) or tail(str(k.a[0])) in ("monotonic", "time", "perf_counter") for k in rest) and sum(rest.values()) <= 0


SOCKET_WAITS = ("connect", "do_handshake", "recv", "recv_into", "read", "accept", "connect_ex")


def wait_for_peer(chk: Check, f: str, plain_only: bool) -> int:
    """Typestate of the sockets a connection is set up with: blocking, non blocking, or timed by the timeout."""
    limit = mk("param", "timeout")
    n = n_selects = 0
    expired = True
    for p in slim(chk, f, names=("socket", "connect", "connect_ex", "do_handshake", "recv", "recv_into", "read", "setblocking", "settimeout", "setdefaulttimeout", "create_connection", "select", "poll", "accept", "wrap_socket"),
                  kinds=("raise",), pins=("select", "timeout", "_ssl_context", "poll"), opaque=[f"{MPQ}.MPQueue.start"]):
        if truth_of(p.pc, limit) is False or known_eq(p.pc, limit, mk("const", 0)) is True or p.flow == "loop":
            continue
        if plain_only and truth_of(p.pc, mk("attr", SELF, "_ssl_context", ())) is True or plain_only and none_of(p.pc, mk("attr", SELF, "_ssl_context", ())) is False:
            continue
        mode = "blocking"
        waits: list[Ev] = []
        for e in p.events:
            name = tail(e.callee)
            if e.kind == "new" and match(e.callee, ["socket.socket"]):
                mode = "blocking"
            elif e.kind != "call" or not (e.callee.startswith(("socket.", "ssl.", "select.", "?.")) or e.callee.startswith("builtins.")):
                continue
            elif name == "setblocking":
                a = e.arg(0, "flag")
                mode = "nonblocking" if isinstance(a, T) and a.k == "const" and not a.a[0] else "blocking"
            elif name == "settimeout":
                a = e.arg(0, "value")
                if isinstance(a, T) and a.k == "const" and a.a[0] is not None:
                    mode = "nonblocking" if not a.a[0] else "other"
                else:
                    mode = "timed" if bounded_by(a, limit) else "blocking"
            elif name == "create_connection":
                n += 1
                a = e.arg(1, "timeout")
                chk.must(bounded_by(a, limit), "bounded-by-timeout", e, "connecting is not bounded by the timeout", p)
                mode = "timed" if bounded_by(a, limit) else "blocking"
            elif name == "select":
                n += 1
                a = e.arg(3, "timeout")
                chk.must(bounded_by(a, limit), "bounded-by-timeout", e, f"the wait is not bounded by the timeout but by {show(a) if a is not None else 'nothing'}", p)
                if not waits and not n_selects:
                    expired = False
                n_selects += 1
                waits.append(e)
                mode = "ready" if mode != "nonblocking" else mode
            elif name == "wrap_socket":
                a = e.kwargs.get("do_handshake_on_connect")
                if not (isinstance(a, T) and a.k == "const" and a.a[0] is False):
                    chk.must(mode in ("timed", "nonblocking"), "bounded-by-timeout", e, "the handshake is not bounded by the timeout", p)
            elif name in SOCKET_WAITS:
                n += 1
                chk.must(mode in ("timed", "nonblocking", "ready"), "bounded-by-timeout", e, f"{name} waits for the peer without the timeout", p)
                if mode == "ready":
                    mode = "blocking"
        if p.flow == "ret":
            for s in waits:
                chk.must(expiry_excluded(p, s), "expiry-is-error", s, "the setup goes on although the wait has timed out", p)
        elif p.flow == "raise" and any(not expiry_excluded(p, s) for s in waits):
            expired = True
            cancelled = any(is_op(k, "truthy") and v and attr_path(plain(k).a[1])[1][-1:] == ["_cancelled"] for k, v in p.pc.items())
            chk.must(cancelled or p.exc is None or not p.exc.endswith("CancelledError"), "expiry-is-error", waits[-1], "the expiry of the timeout is reported as a cancellation", p)
    chk.must(expired, "expiry-is-error", f, "the expiry of the timeout does not raise an error")
    return n


def expiry_excluded(p: Path, sel: Ev) -> bool:
    """The path knows that a socket was ready."""
    for k, v in p.pc.items():
        x = plain(k)
        if not any(same(c, sel.res) for c in walk_term(x)):
            continue
        if is_op(x, "truthy", "in") and v:
            return True
        if is_op(x, "eq") and any(isinstance(c, T) and c.k == "const" and c.a[0] == 0 for c in x.a[1:]) and not v:
            return True
        if is_op(x, "lt", "gt", "le", "ge"):
            return True
    return False


def timeout_of_request(p: Path, x, msg: T) -> str | None:
    """What is wrong with a connect timeout."""
    if isinstance(x, T):
        x = plain(x)
    if isinstance(x, T) and is_op(x, "float"):
        x = plain(x.a[1])
    if not isinstance(x, T):
        return "is not known"
    if x.k == "const":
        absent = any((is_op(k, "in") and not v or is_op(k, "isnone") and v) and request_value(plain(k), "connectTimeout") for k, v in p.pc.items())
        return None if absent and x.a[0] == 5 else f"is {x.a[0]!r}"
    if is_op(x, "or"):
        if not (isinstance(x.a[2], T) and x.a[2].k == "const" and x.a[2].a[0] == 5):
            return "is not 5 seconds unless given"
        x = plain(x.a[1])
        return None if request_value(x, "connectTimeout") else "is not the one of the request"
    if not request_value(x, "connectTimeout"):
        return f"is {show(x)[:60]}"
    if x.k == "item":
        return None
    if is_op(x, "get"):
        d = x.a[3] if len(x.a) > 3 and isinstance(x.a[3], T) else NONE
        return None if d.k == "const" and d.a[0] == 5 else f"is {show(d)} unless given"
    return f"is {show(x)[:60]}"


def c41(chk: Check) -> None:
    """The waits while a launch or attach is set up."""
    # --- what the adapter asks for
    n = 0
    f = handler(chk, SERVER, "AttachRequest")
    msg = mk("param", f.params[1].arg)
    for p in returns(chk.walk(f, raise_mode="none", opaque=CONNECT_BOUNDARY + ["ansibug._tls.create_client_tls_context", f"{ADAPTER}.AttachArguments.get_connection_tuple"])):
        for s in [e for e in p.events if e.callee in (CSTART, SSTART)]:
            n += 1
            why = timeout_of_request(p, s.arg(0, "timeout"), msg)
            chk.must(why is None, "timeout-of-request", s, f"the timeout of an attach {why}", p)
    chk.floor(n, 1, "connections of an attach")
    attr, kept, lf = launch_details(chk)
    f = handler(chk, SERVER, "RunInTerminalResponse")
    msg = mk("param", f.params[1].arg)
    n = 0
    for p in chk.walk(f, raise_mode="none", opaque=CONNECT_BOUNDARY + [f"{SERVER}.send_to_client", f"{SERVER}.stop", f"{SERVERQ}.stop"]):
        for s in [e for e in p.events if e.callee in (CSTART, SSTART)]:
            n += 1
            v = s.arg(0, "timeout")
            if isinstance(v, T) and is_op(plain(v), "float"):
                v = plain(v).a[1]
            q = kept_path(v, attr, msg) if isinstance(v, T) else None
            chk.must(q is not None, "timeout-of-request", s, f"the timeout of a launch is {show(v)[:60] if v is not None else 'not given'}", p)
            for p0, e0, o in kept if q is not None else []:
                why = timeout_of_request(p0, kept_value_raw(o, q), mk("param", lf.params[1].arg))
                chk.must(why is None, "timeout-of-request", e0, f"the timeout of a launch {why}", p0)
    chk.floor(n, 1, "connections of a launch")
    # --- the waits
    n = wait_for_peer(chk, CSTART, False)
    chk.floor(n, 6, "waits of a client connection")
    # The server of a launch has no TLS, the handshake of one that has is not part of a launch.
    tls = False
    for g, node in sites(chk.program, [ADAPTER], is_call_of("ServerMPQueue")):
        tls = tls or any(k.arg == "ssl_context" and not (isinstance(k.value, ast.Constant) and k.value.value is None) for k in node.keywords)
    n = wait_for_peer(chk, SSTART, not tls)
    chk.floor(n, 2, "waits of a server connection")
