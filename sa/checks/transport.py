"""The connection between the adapter and the debuggee: C05, C06, C07, C35, C36, C43."""

from __future__ import annotations

import ast

from ..program import AnalysisError
from ..report import Check
from ._util import *

QUEUE = f"{MPQ}.MPQueue"
CLIENTQ = f"{MPQ}.ClientMPQueue"
SERVERQ = f"{MPQ}.ServerMPQueue"
HELPER = f"{SOCK}.SocketHelper"
TOKEN = f"{SOCK}.SocketCancellationToken"
SELF = mk("param", "self")
CLOSED = "connection_closed"
RECEIVED = "on_msg_received"


def receive_loop(chk: Check) -> str:
    """The function that is run as the receiving thread of a connection."""
    targets = set(thread_targets(chk.walk(f"{QUEUE}.start", raise_mode="none")))
    mine = [t for t in targets if chk.program.find_func(t)]
    if len(mine) != 1:
        raise AnalysisError(f"anchor vanished: the receiving threads of a connection are {sorted(targets)}")
    return mine[0]


def const(x) -> object:
    x = plain(x) if isinstance(x, T) else x
    return x.a[0] if isinstance(x, T) and x.k == "const" else None


def arguments(x: T) -> tuple[list, dict]:
    """The positional and named arguments of the call a term stands for."""
    if x.k == "call":
        return list(x.a[2]), dict(x.a[3])
    rest = list(x.a[1:])
    named: dict = {}
    pos: list = []
    for r in rest:
        if isinstance(r, tuple) and r and all(isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], str) for k in r):
            named.update(r)
        elif isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], str):
            named[r[0]] = r[1]
        else:
            pos.append(r)
    return pos, named


STRUCT = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8, "b": 1, "h": 2, "i": 4, "l": 4, "q": 8}


def struct_format(fmt) -> tuple[int, str, bool] | None:
    if isinstance(fmt, str) and len(fmt) == 2 and fmt[0] in "<>!" and fmt[1] in STRUCT:
        return STRUCT[fmt[1]], "little" if fmt[0] == "<" else "big", fmt[1].islower()
    return None


def is_named(x, name: str) -> bool:
    return isinstance(x, T) and (is_op(x, name) or x.k == "call" and tail(str(x.a[0])) == name or x.k == "op" and tail(str(x.a[0])) == name)


def written_length(x: T) -> tuple[tuple[int, str, bool], T] | None:
    """The format a length is written in, and what it is the length of."""
    x = plain(x)
    if is_named(x, "pack"):
        pos, _ = arguments(x)
        fmt = struct_format(const(pos[0])) if pos else None
        n = plain(pos[1]) if len(pos) > 1 and isinstance(pos[1], T) else None
    elif is_named(x, "to_bytes"):
        pos, named = arguments(x)
        if x.k == "call" and isinstance(x.a[1], T):
            pos = [x.a[1], *pos]
        n = plain(pos[0]) if pos and isinstance(pos[0], T) else None
        size = const(pos[1]) if len(pos) > 1 else const(named.get("length"))
        order = const(pos[2]) if len(pos) > 2 else const(named["byteorder"]) if "byteorder" in named else "big"
        signed = const(pos[3]) if len(pos) > 3 else const(named["signed"]) if "signed" in named else False
        fmt = (size, order, bool(signed)) if isinstance(size, int) and isinstance(order, str) else None
    else:
        return None
    if fmt is None or n is None or not is_op(n, "len"):
        return None
    return fmt, n.a[1]


def read_length(x: T) -> tuple[tuple[int | None, str, bool], T] | None:
    """The format a length is read in, and from what; int.from_bytes reads as many bytes as it is given."""
    x = plain(x)
    if x.k == "item" and const(x.a[1]) == 0 and is_named(plain(x.a[0]), "unpack"):
        pos, _ = arguments(plain(x.a[0]))
        fmt = struct_format(const(pos[0])) if pos else None
        return (fmt, pos[1]) if fmt and len(pos) > 1 else None
    if is_named(x, "from_bytes"):
        pos, named = arguments(x)
        order = const(pos[1]) if len(pos) > 1 else const(named["byteorder"]) if "byteorder" in named else "big"
        signed = const(pos[2]) if len(pos) > 2 else const(named["signed"]) if "signed" in named else False
        if pos and isinstance(order, str):
            return (None, order, bool(signed)), pos[0]
    return None


CODECS = {"dumps": "loads"}


def encoded(x: T) -> tuple[str, T] | None:
    """The codec, and the value that is encoded."""
    x = plain(x)
    if is_named(x, "dumps"):
        pos, named = arguments(x)
        q = str(x.a[0])
        return (q.rsplit(".", 1)[0], pos[0]) if pos else None
    return None


def decoded_from(x: T) -> tuple[str, T] | None:
    x = plain(x)
    if is_named(x, "loads"):
        pos, named = arguments(x)
        return (str(x.a[0]).rsplit(".", 1)[0], pos[0]) if pos else None
    return None


def pieces(x: T) -> list[T]:
    """The parts of a byte string."""
    x = plain(x)
    if is_op(x, "cat"):
        return [q for p in x.a[1:] for q in pieces(p)]
    if x.k == "cat":
        return [q for p in x.a for q in pieces(p)]
    if is_op(x, "bytes", "bytearray") and len(x.a) > 1 and isinstance(x.a[1], T):
        return pieces(x.a[1])
    return [x]


def sent_format(chk: Check) -> tuple[int, str, bool] | None:
    """What MPQueue.send writes to the socket: the length of the encoded message and the encoded message."""
    f = chk.program.func(f"{QUEUE}.send")
    msg = mk("param", f.params[1].arg)
    found = set()
    n = 0
    for p in returns(chk.walk(f, raise_mode="none")):
        writes = [e for e in p.events if e.kind == "call" and e.name in ("send", "sendall", "sendto", "sendmsg", "write", "sendfile") and not chk.program.find_func(e.callee)]
        n += 1
        parts: list[T] = []
        for e in writes:
            looped = any(x.kind == "loop" for x in before(p, e)) and e.name != "sendall"
            if looped:
                raise AnalysisError(f"{f.qual} sends in a loop with {e.name}, which is not understood")
            chk.must(e.name == "sendall", "whole-message", e, f"{e.name} can send only a part of a message", p)
            a = e.arg(0, "data")
            parts += pieces(a) if isinstance(a, T) else []
        ok = len(parts) == 2
        got = written_length(parts[0]) if ok else None
        enc = encoded(parts[1]) if ok else None
        good = got is not None and enc is not None and same(enc[1], msg) and same(got[1], parts[1])
        chk.must(good, "one-frame", writes[0] if writes else f, f"a message is not sent as one frame of its length and itself, but as {[show(x)[:50] for x in parts]}", p)
        if good:
            chk.must(got[0][0] >= 4, "any-size", writes[0], f"a message of {2 ** (8 * got[0][0])} bytes or more, such as a large variable, cannot be sent with a length of {got[0][0]} bytes", p)
            found.add((got[0], enc[0]))
    chk.floor(n, 1, "paths of send")
    if len(found) > 1:
        raise AnalysisError(f"messages are sent in several formats: {sorted(map(str, found))}")
    return found.pop() if found else None


READS = ("recv", "recv_into", "recvfrom", "recvmsg", "read", "readinto", "recvfrom_into")


def raw_reads(events) -> list[Ev]:
    return [e for e in events if e.kind == "call" and e.name in READS and not e.callee.startswith("ansibug")]


def check_recv(chk: Check) -> None:
    """SocketHelper.recv returns the bytes asked for, fewer only at the end of the stream."""
    f = chk.program.func(f"{HELPER}.recv")
    want = mk("param", f.params[1].arg)
    n = 0
    for p in returns(chk.walk(f, raise_mode="none")):
        v = plain(p.value) if isinstance(p.value, T) else p.value
        v = v.a[1] if isinstance(v, T) and is_op(v, "bytes") and len(v.a) > 1 else v
        reads = raw_reads(p.events)
        chk.must(len(reads) <= 1 or any(e.kind == "loop" for e in p.events), "exact-read", f, "more than one read without a loop", p)
        if not reads:
            # Nothing was read: nothing may have been asked for.
            end = slice_end(v)
            empty = const(v) in (b"",) or end is not None and lin(end) == (0, {}) or isinstance(v, T) and is_op(v, "bytes", "bytearray") and len(v.a) < 2
            chk.must(empty and implies_ge0(p.pc, (0, {want: -1})), "exact-read", f, "data is returned without being read", p)
            continue
        r = reads[-1]
        n += 1
        ended = any((is_op(plain(k), "eq") and v2 and any(const(c) in (0, b"") and const(c) is not False for c in plain(k).a[1:]) or is_op(plain(k), "truthy") and not v2) and any(same(c, r.res) for c in walk_term(plain(k))) for k, v2 in p.pc.items())
        more = read_more(r, v, want, ended)
        if more is None:
            raise AnalysisError(f"{f.qual} reads in a way that is not understood: {show(v)[:100]}")
        for why in more[1]:
            chk.must(False, "exact-read", r, why, p)
        chk.must(True, "exact-read", r, "")
        full = implies_ge0(p.pc, lsub(more[0], lin(want)))
        chk.must(ended or full, "exact-read", f, "fewer bytes than asked for are returned before the end of the stream", p)
        again = [e for e in p.events if e.kind == "loopend" and e.again is not None and True in e.again]
    chk.floor(n, 2, "ways a read ends")


def slice_end(v) -> T | None:
    if isinstance(v, T) and v.k == "slice":
        return v.a[2] if isinstance(v.a[2], T) else None
    if isinstance(v, T) and v.k == "op" and v.a[0] == "slice":
        return v.a[3] if isinstance(v.a[3], T) else None
    return None


def read_more(r: Ev, v, want: T, ended: bool) -> tuple[tuple, list[str]] | None:
    """How many bytes there are after a read, and what is wrong with where they go."""
    wrong = []
    if r.name in ("recv_into", "readinto", "recvfrom_into"):
        buf, size = r.arg(0, "buffer"), r.arg(1, "nbytes")
        b = unslice(buf)
        res = unslice(v)
        if b is None or res is None or res[2] is None:
            return None
        base, start, stop = b
        start = start if start is not None else mk("const", 0)
        total = ladd(lin(start), (0, {plain(r.res): 1}))
        left = lsub(lin(want), lin(start))
        if size is not None and lin(size) != left and not (const(size) == 0):
            wrong.append("a read asks for more or fewer bytes than are left")
        if stop is not None and lin(stop) != lin(want):
            wrong.append("a read does not fill the buffer to its end")
        if not same(buffer_of(base), buffer_of(res[0])):
            wrong.append("what is returned is not what was read")
        if res[1] is not None and lin(res[1]) != (0, {}) or lin(res[2]) != total and not (ended and lin(res[2]) == lin(start)):
            wrong.append("what is returned is not what was read")
        return total, wrong
    size = r.arg(0, "n")
    parts = pieces(v) if isinstance(v, T) else []
    got = [x for x in parts if same(x, r.res)]
    rest = [x for x in parts if not same(x, r.res)]
    if len(rest) > 1 or size is None:
        return None
    have = (0, {mk("op", "len", rest[0]): 1}) if rest else (0, {})
    if rest and const(rest[0]) == b"":
        have = (0, {})
    if lin(size) != lsub(lin(want), have):
        wrong.append("a read asks for more or fewer bytes than are left")
    if len(got) > 1 or got and parts[-1] is not got[0]:
        wrong.append("what is read is not returned in order")
    return (ladd(have, (0, {mk("op", "len", plain(r.res)): 1})) if got else have), wrong


def buffer_of(x: T) -> T:
    x = plain(x)
    while is_op(x, "memoryview") or x.k == "call" and tail(str(x.a[0])) == "memoryview":
        x = plain(x.a[1] if x.k == "op" else x.a[2][0])
    return x


def unslice(x) -> tuple[T, T | None, T | None] | None:
    """(base, start, end) of a slice."""
    if not isinstance(x, T):
        return None
    x = plain(x)
    if x.k == "slice":
        s, e = (a if isinstance(a, T) and a is not NONE else None for a in x.a[1:3])
        return x.a[0], s, e
    if is_op(x, "slice"):
        s, e = (a if isinstance(a, T) and a is not NONE else None for a in x.a[2:4])
        return x.a[1], s, e
    return x, None, None


def c05(chk: Check) -> None:
    """The frames of the connection.

    Assumes that a truncated pickle cannot be decoded and that the sends of one end come from one thread at a time (C39)."""
    fmt = sent_format(chk)
    check_recv(chk)
    loop = receive_loop(chk)
    recv = f"{HELPER}.recv"
    n = ends = 0
    for p in chk.walk(loop, raise_mode="none", opaque=[recv]):
        reads = [e for e in p.events if e.callee == recv]
        given = [e for e in p.events if e.kind == "call" and e.name == RECEIVED]
        for e in given:
            n += 1
            a = e.arg(0, "msg")
            dec = decoded_from(a) if isinstance(a, T) else None
            body = [r for r in reads if dec and same(r.res, dec[1])]
            size = body[0].arg(0, "n") if body else None
            length = read_length(size) if isinstance(size, T) else None
            head = [r for r in reads if length and same(r.res, length[1])]
            ok = dec is not None and body and length is not None and head
            chk.must(ok, "frame-is-read", e, f"what is delivered is not the decoded body of a frame: {show(a)[:80] if a is not None else None}", p)
            if not ok:
                continue
            hs = const(head[0].arg(0, "n"))
            got = (length[0][0] if length[0][0] is not None else hs, length[0][1], length[0][2])
            chk.must(hs == got[0], "same-format", head[0], f"{hs} bytes are read for a length of {got[0]} bytes", p)
            if fmt is not None:
                chk.must(got == fmt[0], "same-format", head[0], f"a length is written as {fmt[0]} and read as {got}", p)
                chk.must(dec[0] == fmt[1], "same-format", e, f"a message is written with {fmt[1]} and read with {dec[0]}", p)
            mine = [r for r in reads if p.index(r) < p.index(e)]
            chk.must(len(mine) >= 2 and mine[-2] is head[0] and mine[-1] is body[0], "one-frame", e, "the length and the body of a frame are not read one after the other", p)
        # Every frame that is read is delivered once.
        for end in [x for x in p.events if x.kind == "loopend"]:
            start = [x for x in before(p, end) if x.kind == "loop" and x.res is end.res]
            inside = [x for x in before(p, end) if not start or p.index(x) > p.index(start[-1])]
            got = [x for x in inside if x.kind == "call" and x.name == RECEIVED]
            took = [x for x in inside if x.callee == recv]
            if took:
                chk.must(len(got) == 1 and len(took) == 2, "delivered-once", loop, f"a frame of {len(took)} reads is delivered {len(got)} times", p)
        if p.flow == "ret" and reads:
            ends += 1
            last = reads[-1]
            done = known_short(p, last)
            chk.must(done and not any(p.index(g) > p.index(last) for g in given), "delivered-once", loop, "the connection is no longer read although it has not ended", p)
            head_reads = [r for r in reads if read_length_used(reads, r)]
            chk.must(last not in [r for r in reads if is_body(reads, r)] or truth_of(p.pc, last.res) is not None, "delivered-once", loop, "a frame that was read is not delivered", p)
    chk.floor(n, 1, "deliveries")
    chk.floor(ends, 1, "ends of the connection")
    seen = visited(chk.walk(loop, raise_mode="none", opaque=[recv]))
    for g, node in sites(chk.program, [PKG, ADAPTER, MPQ, DEBUGGEE], is_call_of(RECEIVED)):
        if g.module.name == MPQ or g.module.name == ADAPTER or g.module.name == DEBUGGEE:
            chk.must((g.module.rel, node.lineno) in seen, "delivered-once", g, f"line {node.lineno} delivers a message that was not received")
    # One thread receives.
    for start in (f"{QUEUE}.start", CLIENTQ + ".start", SERVERQ + ".start"):
        for p in returns(slim(chk, start, names=("start", "Thread"), kinds=("raise",), pred=lambda e: e.kind == "call" and "thread" in e.callee.lower(), opaque=[f"{TOKEN}.{m}" for m in ("accept", "connect", "do_handshake", "recv_into", "sendall")])):
            runs = [e for e in p.events if e.kind == "call" and e.name == "start" and e.callee.endswith("Thread.start")]
            chk.must(len(runs) == 1, "one-receiver", start, f"a connection is started with {len(runs)} receiving threads", p)
    lifted(chk)


def known_short(p: Path, r: Ev) -> bool:
    """Whether a path knows that fewer bytes were read than were asked for."""
    if truth_of(p.pc, r.res) is False:
        return True
    want = r.arg(0, "n")
    size = mk("op", "len", plain(r.res))
    for k, v in p.pc.items():
        k = plain(k)
        if is_op(k, "eq", "is") and any(same(a, r.res) for a in k.a[1:]) and any(const(a) == b"" for a in k.a[1:]):
            return v
        if is_op(k, "eq") and size in k.a[1:]:
            other = k.a[2] if k.a[1] is size else k.a[1]
            if lin(other) == (0, {}) and v or isinstance(want, T) and lin(other) == lin(want) and not v:
                return True
    return isinstance(want, T) and implies_ge0(p.pc, lsub(lsub(lin(want), (0, {size: 1})), (1, {})))


def read_length_used(reads: list[Ev], r: Ev) -> bool:
    return any(isinstance(x.arg(0, "n"), T) and read_length(x.arg(0, "n")) is not None and same(read_length(x.arg(0, "n"))[1], r.res) for x in reads)


def is_body(reads: list[Ev], r: Ev) -> bool:
    a = r.arg(0, "n")
    return isinstance(a, T) and read_length(a) is not None


def lifted(chk: Check) -> None:
    """A connection that is in use does not time out."""
    for q in (CLIENTQ, SERVERQ):
        for p in returns(slim(chk, f"{q}.start", names=("socket", "settimeout", "setblocking", "accept"), kinds=("raise",), opaque=[f"{QUEUE}.start", f"{TOKEN}.do_handshake", f"{TOKEN}.recv_into", f"{TOKEN}.sendall"])):
            mode = "blocking"
            last = None
            for e in p.events:
                if e.kind == "new" and match(e.callee, ["socket.socket"]) or e.kind == "call" and e.callee.endswith("socket.accept"):
                    mode = "blocking"
                elif e.kind == "call" and e.name == "settimeout" and not e.callee.startswith("ansibug"):
                    a = e.arg(0, "value")
                    mode, last = ("blocking" if a is NONE else "timed"), e
                elif e.kind == "call" and e.name == "setblocking":
                    a = e.arg(0, "flag")
                    mode, last = ("blocking" if const(a) else "nonblocking"), e
            chk.must(mode == "blocking", "no-timeout-in-use", last or f"{q}.start", "a connection that is idle for longer than the connect timeout ends", p)


def c06(chk: Check) -> None:
    """The report of the end of a connection."""
    loop = receive_loop(chk)
    n = errors = cancels = 0
    paths = chk.walk(loop, raise_mode="all", opaque=[f"{HELPER}.recv"])
    for p in paths:
        if p.flow == "loop":
            continue
        told_ = [e for e in p.events if e.kind == "call" and e.name == CLOSED]
        n += 1
        chk.must(len(told_) == 1, "told-once", told_[1] if len(told_) > 1 else loop, f"the end of a connection is reported {len(told_)} times", p)
        if not told_:
            continue
        e = told_[0]
        chk.must(not any(x.kind == "call" and x.name == RECEIVED for x in after(p, e)), "told-last", e, "a message is delivered after the end of the connection was reported", p)
        a = e.arg(0, "exp")
        caught = [x for x in before(p, e) if x.kind == "caught"]
        if not caught:
            chk.must(a is NONE, "told-the-reason", e, "an orderly end is reported as an error", p)
            continue
        exc = caught[-1]
        cancelled = exc.callee.endswith("CancelledError") or isa_of(p.pc, exc.args[0], "CancelledError") is True if exc.args else exc.callee.endswith("CancelledError")
        if cancelled:
            cancels += 1
            chk.must(a is NONE, "told-the-reason", e, "a cancelled connection is reported as an error", p)
        else:
            errors += 1
            ok = isinstance(a, T) and a is not NONE and (exc.args and same(a, exc.args[0]) or any(k is exc.args[0] for k in walk_term(a)) if exc.args else True)
            chk.must(ok, "told-the-reason", e, f"an error ({tail(exc.callee)}) is reported as {show(a) if a is not None else None}", p)
    chk.floor(n, 6, "ends of a connection")
    chk.floor(errors, 2, "ends with an error")
    chk.must(cancels, "told-the-reason", loop, "a cancellation is not told apart from an error")
    seen = visited(paths)
    for g, node in sites(chk.program, [MPQ, SOCK, ADAPTER, DEBUGGEE], is_call_of(CLOSED)):
        chk.must((g.module.rel, node.lineno) in seen, "told-once", g, f"line {node.lineno} also reports the end of a connection")


# --- C07 -----------------------------------------------------------------------
BLOCKING = {
    "accept": {"SHUT_RD", "SHUT_RDWR"}, "connect": {"SHUT_RDWR"}, "connect_ex": {"SHUT_RDWR"}, "do_handshake": {"SHUT_RDWR"},
    "recv": {"SHUT_RD", "SHUT_RDWR"}, "recv_into": {"SHUT_RD", "SHUT_RDWR"}, "recvfrom": {"SHUT_RD", "SHUT_RDWR"}, "recvmsg": {"SHUT_RD", "SHUT_RDWR"},
    "read": {"SHUT_RD", "SHUT_RDWR"}, "send": {"SHUT_WR", "SHUT_RDWR"}, "sendall": {"SHUT_WR", "SHUT_RDWR"}, "sendmsg": {"SHUT_WR", "SHUT_RDWR"}, "sendfile": {"SHUT_WR", "SHUT_RDWR"},
}
HOW = {0: "SHUT_RD", 1: "SHUT_WR", 2: "SHUT_RDWR"}


def registry(chk: Check) -> tuple[str, str]:
    """The attributes that hold the operations in progress and whether the token was cancelled."""
    regs, flags = set(), set()
    for p in chk.walk(f"{TOKEN}.cancel", raise_mode="none"):
        for e in p.events:
            if e.kind == "setattr" and e.recv is SELF and const(e.args[0]) is True:
                flags.add(e.callee)
    for f in chk.program.cls(TOKEN).methods.values():
        for p in chk.walk(f, raise_mode="none"):
            for e in p.events:
                if e.kind == "setitem" and e.recv is not None:
                    r, names = attr_path(base_of(e.recv))
                    if r is SELF and len(names) == 1:
                        regs.add(names[0])
    if len(regs) != 1 or len(flags) != 1:
        raise AnalysisError(f"anchor vanished: the token keeps {sorted(regs)} and {sorted(flags)}")
    return regs.pop(), flags.pop()


def interrupter(chk: Check, fn) -> tuple[list[tuple[str, str]], str]:
    """What a cancel function does: (name of the socket, how it is shut down) in order."""
    if isinstance(fn, T) and fn.k == "partial":
        b = fn.a[0]
        how = [how_of_term(a) for a in fn.a[1]]
        text = show(plain(b)) if isinstance(b, T) else str(b)
        name = next((m for m in ("shutdown", "close", "detach") if text.endswith("." + m)), None)
        return [(text[: -len(name) - 1] if name else text, how[0] if how else name or "close")], show(fn)
    if isinstance(fn, T) and fn in chk.closures:
        node, fr = chk.closures[fn]
        res = []
        for c in ast.walk(node):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("shutdown", "close", "detach"):
                how = how_of_node(c.args[0]) if c.func.attr == "shutdown" and c.args else "close"
                res.append((c.lineno, c.col_offset, ast.unparse(c.func.value), how))
        return [(x[2], x[3]) for x in sorted(res)], "closure"
    return [], show(fn) if isinstance(fn, T) else str(fn)


def how_of_node(n: ast.AST) -> str:
    if isinstance(n, ast.Constant):
        return HOW.get(n.value, "?")
    return n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else "?"


def how_of_term(x) -> str:
    v = const(x)
    return HOW.get(v, "?") if v is not None else tail(show(x))


def names_called(f) -> set[str]:
    return {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}


def is_socket_op(e: Ev) -> bool:
    if e.kind != "call":
        return False
    if match(e.callee, ["select.select", "socket.create_connection"]):
        return True
    return e.name in BLOCKING and (e.callee.startswith(("socket.", "ssl.")) or e.callee.startswith("?") and "sock" in show(e.recv))


def token_ops(chk: Check) -> list:
    """The methods that wait, without the parts of them that are methods of their own."""
    methods = chk.program.cls(TOKEN).methods
    waits = {f.name for f in methods.values() if names_called(f) & (set(BLOCKING) | {"select"})}
    inside = {n: {f.name for f in methods.values() if f.name != n and n in names_called(f)} for n in methods}
    outside = {n for f in functions_of(chk.program, [MPQ, SOCK, ADAPTER, DEBUGGEE]) if f.cls is None or f.cls.qual != TOKEN for n in names_called(f)}
    parts = {n for n in waits if n.startswith("_") and inside[n] and n not in outside}
    while more := {o for n in waits & parts for o in inside[n]} - waits:
        waits |= more
    return [methods[n] for n in methods if n in waits - parts]


def name_value(chk: Check, p: Path, fn: T, text: str) -> str:
    """The value of a name that a cancel function uses."""
    fr = chk.closures[fn][1] if fn in chk.closures else None
    while fr is not None:
        v = p.state.env.get((fr.fid, text)) if p.state is not None else None
        if isinstance(v, T):
            return show(plain(v))
        if isinstance(v, Obj):
            return text
        fn_node = getattr(getattr(fr, "func", None), "node", None)
        if fn_node is not None:
            for n in ast.walk(fn_node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == text and isinstance(n.value, (ast.Name, ast.Attribute)):
                    return ast.unparse(n.value)
        fr = fr.parent
    return text


def sockets_of(p: Path, e: Ev) -> set[str]:
    """The sockets an operation waits for."""
    res = set()
    terms = [e.recv] if e.recv is not None else []
    if e.name == "select":
        for a in [*e.sargs[:2]] if hasattr(e, "sargs") else [e.sarg(0), e.sarg(1)]:
            if isinstance(a, Obj):
                res |= {show(plain(x)) for x in a.fields if isinstance(x, T)}
            elif isinstance(a, T):
                terms.append(a)
    for x in terms:
        res.add(show(plain(x)))
        # A socket that a wait returned is one of those that were waited for.
        for w in [w for w in before(p, e) if w.name == "select" and w.kind == "call"]:
            if any(same(k, w.res) for k in walk_term(x)):
                res |= sockets_of(p, w)
    return res


def unique_key(p: Path, key: T, r: Ev) -> bool:
    key = plain(key)
    if key.k == "new" or is_op(key, "id", "next") or key.k == "call" and tail(str(key.a[0])) in ("uuid4", "object", "next"):
        return True
    base, names = attr_path(key)
    if base is SELF and len(names) == 1:
        for e in p.events:
            if e.kind == "setattr" and e.callee == names[0] and e.recv is SELF and held(e) and held(e) == held(r):
                d = lsub(lin(plain(e.args[0])), lin(key))
                if d == (1, {}) or d[1] == {} and d[0] > 0:
                    return True
    # The key was taken after the counter was increased.
    for e in p.events:
        if e.kind == "setattr" and e.recv is SELF and same(e.args[0], key) and held(e) and held(e) == held(r):
            d = lsub(lin(plain(e.args[0])), lin(mk("attr", SELF, e.callee, ())))
            if d[1] == {} and d[0] > 0:
                return True
    return False


def read_truth(p: Path, e: Ev) -> bool | None:
    """What a path knows about one read of an attribute, which may have another value the next time."""
    for k, v in p.pc.items():
        if k is e.res or is_op(k, "truthy") and k.a[1] is e.res:
            return v
        if is_op(k, "eq", "is") and e.res in k.a[1:]:
            o = k.a[2] if k.a[1] is e.res else k.a[1]
            if isinstance(o, T) and o.k == "const" and isinstance(o.a[0], bool):
                return o.a[0] == v
    return None


def check_operation(chk: Check, f, reg: str, flag: str) -> int:
    n = 0
    interrupted = {}
    for p in chk.walk(f, raise_mode="all", reads=[flag]):
        is_reg = lambda x: attr_path(x) == (SELF, [reg])
        regs = [e for e in p.events if e.kind == "setitem" and e.recv is not None and is_reg(e.recv)]
        ops = [e for e in p.events if is_socket_op(e)]
        for e in ops:
            n += 1
            mine = [r for r in regs if p.index(r) < p.index(e)]
            gone = [x for x in before(p, e) if x.kind in ("delitem",) and is_reg(x.recv) or x.kind == "call" and x.name in ("pop", "clear", "popitem") and x.recv is not None and is_reg(x.recv)]
            chk.must(mine and not [x for x in gone if p.index(x) > p.index(mine[-1])], "interruptible", e, f"{e.name} waits without being registered for cancellation", p)
            for r in mine[-1:]:
                acts, text = interrupter(chk, r.args[1])
                hit = sockets_of(p, e)
                good = False
                for target, how in acts:
                    if name_value(chk, p, r.args[1], target) in hit or target in hit:
                        hows = BLOCKING.get(e.name) or (BLOCKING["connect"] if e.name == "select" and any(o.name == "connect" for o in ops) else BLOCKING["accept"])
                        value = how if how in HOW.values() or how == "close" else name_value(chk, p, r.args[1], how)
                        value = HOW.get(int(value), value) if value.isdigit() else tail(value)
                        good = good or value in hows
                chk.must(good, "interrupted-by-shutdown", r, f"cancelling does not interrupt {e.name} of {sorted(hit)}: {acts}", p)
        for r in regs:
            locks = held(r)
            opened = [x for x in before(p, r) if x.kind == "acquire"]
            asked = [x for x in before(p, r) if x.kind == "getattr" and x.callee == flag and opened and p.index(x) > p.index(opened[-1]) and read_truth(p, x) is False]
            chk.must(locks and asked and all(held(x) == locks for x in asked[-1:]), "none-begins-later", r, "an operation is registered without checking under the same lock that the token is not cancelled", p)
            chk.must(unique_key(p, r.args[0], r), "own-registration", r, "two operations can be registered under the same key", p)
            ends = [x for x in after(p, r) if (x.kind == "delitem" or x.kind == "call" and x.name == "pop") and x.recv is not None and is_reg(x.recv) and x.args and same(x.args[0], r.args[0])]
            if p.flow != "loop":
                gone = any(k.k == "op" and k.a[0] == "in" and same(k.a[1], r.args[0]) and not v and attr_path(base_of(k.a[2])) == (SELF, [reg]) for k, v in p.pc.items())
                chk.must(ends and held(ends[-1]) == locks or gone, "finished-is-unaffected", r, "an operation that has finished stays registered", p)
            others = [x for x in after(p, r) if x.kind in ("delitem", "call") and x.name in ("pop", "popitem", "clear") and x.recv is not None and is_reg(x.recv) and x not in ends]
            chk.must(not others, "own-registration", others[0] if others else r, "an operation removes the registration of another one", p)
        if not ops:
            continue
        last = ops[-1]
        asked = [(x, read_truth(p, x)) for x in after(p, last) if x.kind == "getattr" and x.callee == flag]
        yes = any(v is True for _, v in asked)
        no = any(v is False for _, v in asked)
        if yes:
            chk.must(p.flow == "raise" and (p.exc or "").endswith("CancelledError"), "reports-cancellation", last, f"{last.name} that was cancelled ends with {p.exc or 'a result'}", p)
            interrupted[last.name, last.raised] = True
        if p.flow == "ret" and (last.name.startswith(("recv", "read", "connect")) or last.name == "select") and not last.raised:
            chk.must(no, "reports-cancellation", last, f"{last.name} that was cancelled is reported as finished", p)
        if p.flow == "ret" and last.raised:
            chk.must(no or last.name == "connect", "reports-cancellation", last, f"a failed {last.name} is reported as finished", p)
        caught = [x for x in after(p, last) if x.kind == "caught"]
        if p.flow == "raise" and last.raised and caught and not yes:
            chk.must(no or last.name == "connect", "reports-cancellation", last, f"{last.name} that was cancelled is reported as an error", p)
        interrupted.setdefault((last.name, last.raised), False)
    for name in {k[0] for k in interrupted}:
        # These operations end with an error when their socket is shut down.
        if name in ("accept", "do_handshake", "send", "sendall"):
            chk.must(interrupted.get((name, True)), "reports-cancellation", f, f"{name} that was cancelled is reported as an error")
    return n


def known_empty(p: Path, reg: str) -> bool:
    return any(is_op(plain(k), "eq") and not lin(plain(k).a[2])[1] and lin(plain(k).a[2])[0] == 0 and v and is_op(plain(k).a[1], "len") and attr_path(plain(k).a[1].a[1]) == (SELF, [reg]) for k, v in p.pc.items())


def check_cancel(chk: Check, reg: str, flag: str) -> None:
    f = f"{TOKEN}.cancel"
    n = 0
    survived = False
    for p in chk.walk(f, raise_mode="all", reads=[flag]):
        marks = [e for e in p.events if e.kind == "setattr" and e.callee == flag and e.recv is SELF]
        loops = [e for e in p.events if e.kind in ("loop", "loopzero") and e.recv is not None and attr_path(base_of(e.recv)) == (SELF, [reg])]
        runs = [e for e in p.events if e.kind == "call" and not e.callee.startswith(("ansibug", "logging")) and e.recv is not None and reg in names_in(e.recv) and e.name not in ("items", "values", "keys", "copy", "pop", "get", "clear", "popitem")]
        if p.flow == "ret":
            n += 1
            chk.must(marks and const(marks[0].args[0]) is True and held(marks[0]), "none-begins-later", f, "cancelling does not mark the token under its lock", p)
            chk.must(not any(const(m.args[0]) is not True for m in marks), "none-begins-later", f, "a cancelled token is used again", p)
            done = any(read_truth(p, e) is True for e in p.events if e.kind == "getattr" and e.callee == flag)
            # Each of them is taken out until there is none left.
            taken = [e for e in p.events if e.kind == "call" and e.name == "popitem" and e.recv is not None and attr_path(base_of(e.recv)) == (SELF, [reg])]
            drained = any(attr_path(plain(k.a[1])) == (SELF, [reg]) and not v for k, v in p.pc.items() if is_op(k, "truthy")) or known_empty(p, reg)
            for e in taken:
                chk.must(marks and p.index(marks[0]) < p.index(e) and any(p.index(r) > p.index(e) for r in runs), "all-interrupted", e, "an operation in progress is not interrupted", p)
            chk.must(loops or done or drained, "all-interrupted", f, "the operations in progress are not interrupted", p)
            for l in loops:
                chk.must(marks and p.index(marks[0]) < p.index(l), "none-begins-later", l, "an operation can begin after those in progress were interrupted", p)
                if l.kind == "loop":
                    inside = [r for r in runs if p.index(r) > p.index(l)]
                    chk.must(inside, "all-interrupted", l, "an operation in progress is not interrupted", p)
                    chk.must(not broken(p, l), "all-interrupted", l, "not every operation in progress is interrupted", p)
        for r in runs:
            chk.must(held(r) and marks and held(r) == held(marks[0]), "finished-is-unaffected", r, "an operation that has finished meanwhile is interrupted", p)
            if r.raised:
                caught = [e for e in after(p, r) if e.kind == "caught"]
                if caught and tail(caught[0].callee) in ("OSError", "Exception", "BaseException", "error", "IOError", "EnvironmentError"):
                    survived = survived or p.flow == "ret" and not [e for e in after(p, r) if e.kind == "loopbreak"]
                    chk.must(p.flow == "ret", "all-interrupted", r, "the others are not interrupted when interrupting one fails", p)
                    chk.must(not [e for e in after(p, r) if e.kind == "loopbreak"], "all-interrupted", r, "the others are not interrupted when interrupting one fails", p)
    chk.floor(n, 2, "ways a cancellation ends")
    chk.must(survived, "all-interrupted", f, "the others are not interrupted when interrupting one fails")
    held_at_all = [p for p in chk.walk(f, raise_mode="none") if p.flow == "loop"]
    chk.must(not held_at_all, "all-interrupted", f, "cancelling does not end")


def c07(chk: Check) -> None:
    """Typestate of the operations of a cancellation token."""
    reg, flag = registry(chk)
    ops = token_ops(chk)
    n = sum(check_operation(chk, f, reg, flag) for f in ops)
    chk.floor(n, 12, "socket operations on paths")
    check_cancel(chk, reg, flag)
    # A token stays cancelled.
    for g, node in sites(chk.program, [SOCK, MPQ, ADAPTER, DEBUGGEE], lambda n: isinstance(n, ast.Assign) and any(isinstance(t_, ast.Attribute) and t_.attr == flag for t_ in n.targets)):
        v = node.value
        chk.must(g.name == "__init__" or isinstance(v, ast.Constant) and v.value is True, "none-begins-later", g, f"line {node.lineno} makes a cancelled token usable again")
    # Every blocking operation is one of the connection's token.
    stop = returns(chk.walk(f"{QUEUE}.stop", raise_mode="none", opaque=[f"{TOKEN}.cancel"]))
    tokens = {tuple(attr_path(e.recv)[1]) for p in stop for e in p.events if e.callee == f"{TOKEN}.cancel"}
    chk.must(len(tokens) == 1 and all(any(e.callee == f"{TOKEN}.cancel" for e in p.events) for p in stop), "token-of-connection", f"{QUEUE}.stop", "stopping a connection does not cancel it")
    for p in stop:
        waits = [e for e in p.events if e.kind == "call" and e.name in ("join", "wait")]
        cancels = [e for e in p.events if e.callee == f"{TOKEN}.cancel"]
        for w in waits:
            chk.must(cancels and p.index(cancels[0]) < p.index(w), "token-of-connection", w, "stopping waits for the receiving thread before it is cancelled", p)
    token = tokens.pop() if tokens else ("_cancel_token",)
    opq = [f.qual for f in ops]
    n = 0
    mine = {f.qual for f in ops}
    for g in functions_of(chk.program, [MPQ, SOCK, ADAPTER, DEBUGGEE]):
        if g.cls is not None and g.cls.qual == TOKEN:
            continue
        called = names_called(g)
        if not called & (set(BLOCKING) | {"wrap_socket", "create_connection", "select", "wrap_tls"}):
            continue
        if g.module.name in (ADAPTER, DEBUGGEE) and not any(isinstance(x, ast.Attribute) and "sock" in x.attr.lower() for x in ast.walk(g.node)):
            continue
        for p in slim(chk, g, names=set(BLOCKING) | {"wrap_socket", "create_connection", "select"}, kinds=("raise",), opaque=opq):
            for e in p.events:
                if e.kind == "call" and e.callee in mine:
                    n += 1
                    r, names = attr_path(e.recv)
                    ok = r is SELF and tuple(names) == token or g.module.name == SOCK and r.k == "param"
                    chk.must(ok, "token-of-connection", e, f"{e.name} is not cancelled with the connection but with {show(e.recv)}", p)
                elif is_socket_op(e):
                    chk.must(False, "interruptible", e, f"{e.name} waits without being registered for cancellation", p)
                elif e.kind == "call" and e.name == "wrap_socket":
                    a = e.kwargs.get("do_handshake_on_connect")
                    chk.must(isinstance(a, T) and const(a) is False, "interruptible", e, "the handshake waits without being registered for cancellation", p)
    chk.floor(n, 10, "cancellable operations of a connection")
