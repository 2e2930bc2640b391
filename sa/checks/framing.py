"""C01, C02: the framing and numbering of DAP messages."""

from __future__ import annotations

from ..program import AnalysisError
from ..report import Check
from ._util import *

CONN = "ansibug.dap._adapter.DebugAdapterConnection"
UNPACK = "ansibug.dap._messages.ProtocolMessage.unpack"
HEADER = b"Content-Length"


def flat_slice(x: T) -> tuple[T, tuple, tuple | None]:
    """(base, start, end) of a slice of slices from the front, end is None if open."""
    x = unver(x)
    while is_op(x, "bytes", "bytearray", "copy") and len(x.a) == 2:
        x = unver(x.a[1])
    if x.k != "slice":
        return plain(x), (0, {}), None
    base, lo, hi = flat_slice(x.a[0])
    a = (0, {}) if x.a[1] is NONE else lin(x.a[1])
    b = None if x.a[2] is NONE else lin(x.a[2])
    return base, ladd(lo, a), (ladd(lo, b) if b is not None else hi)


def parts(x: T) -> list[T]:
    x = unver(x)
    if x.k == "cat":
        return [p for i in x.a for p in parts(i)]
    return [x]


def appends(p: Path, param: T) -> list[tuple[str, list[T], Ev]]:
    """What is added to the end of a buffer attribute of self: (attribute, content, event)."""
    res = []
    for e in p.events:
        if e.kind == "call" and e.name in ("extend", "append") and e.recv is not None:
            r, names = attr_path(e.recv)
            if r is param and len(names) == 1 and e.args:
                res.append((names[0], parts(e.args[0]), e))
        elif e.kind == "setattr" and e.recv is param and e.args:
            ps = parts(e.args[0])
            if len(ps) > 1 and same(ps[0], mk("attr", param, e.callee, 0)):
                res.append((e.callee, ps[1:], e))
    return res


def buffer_stores(p: Path, name: str) -> list[Ev]:
    return [
        e
        for e in p.events
        if (e.kind == "setattr" and e.callee == name)
        or (
            e.kind in ("call", "setitem")
            and e.recv is not None
            and attr_path(e.recv)[1][-1:] == [name]
            and (e.kind == "setitem" or e.name in ("extend", "append", "pop", "clear", "remove", "insert", "reverse", "__delitem__", "__iadd__"))
        )
    ]


def what_is_left(e: Ev) -> T | None:
    """What a buffer holds once it was changed: the value it is given, or the slice that was not deleted from its front."""
    if e.kind == "setattr":
        return e.args[0]
    if e.name == "__delitem__" and e.args and e.args[0].k == "sl" and e.args[0].a[0] in (NONE, const(0)) and e.args[0].a[1] is not NONE:
        return mk("slice", plain(e.recv), e.args[0].a[1], NONE)
    return None


def filled(p: Path, x: T) -> list[T]:
    """The terms of a value, with what was put into the containers in it."""
    res = list(walk_term(x))
    roots = {unver(k) for k in res}
    for e in p.events:
        if e.kind == "setitem" and e.recv is not None and unver(e.recv) in roots:
            res += [k for a in e.args if isinstance(a, T) for k in walk_term(a)]
    return res


def out_buffer(chk: Check) -> str:
    names = set()
    for p in returns(chk.walk(f"{CONN}.queue_msg", raise_mode="none", opaque=["ansibug.dap._messages.ProtocolMessage.pack"])):
        for n, content, _ in appends(p, mk("param", "self")):
            names.add(n)
    if len(names) != 1:
        raise AnalysisError(f"anchor vanished: the output buffer of queue_msg is {sorted(names)}")
    return names.pop()


def in_buffer(chk: Check) -> str:
    names = set()
    for p in returns(chk.walk(f"{CONN}.receive_data", raise_mode="none")):
        names |= {n for n, _, _ in appends(p, mk("param", "self"))}
    if len(names) != 1:
        raise AnalysisError(f"anchor vanished: the input buffer of receive_data is {sorted(names)}")
    return names.pop()


def ascii_json(x: T) -> bool:
    if not is_op(x, "json.dumps") and not (x.k == "call" and match(x.a[0], ["json.dumps"])):
        return False
    for k in walk_term(x):
        if k.k == "kw" and k.a[0] == "ensure_ascii" and k.a[1] is not TRUE:
            return False
    return True


def c01(chk: Check) -> None:
    """DAP framing.

    json.dumps with its default ensure_ascii produces ASCII text, so its length in characters is its length in bytes.
    bytes.find, slicing and int() behave as documented by Python; the header text itself is well formed."""
    self_ = mk("param", "self")
    out = out_buffer(chk)

    # --- what is sent
    n = 0
    q = f"{CONN}.queue_msg"
    for p in returns(chk.walk(q, raise_mode="none", opaque=["ansibug.dap._messages.ProtocolMessage.pack"])):
        n += 1
        app = appends(p, self_)
        chk.must(bool(app) and len(buffer_stores(p, out)) == len(app), "one-frame-per-message", q, "a queued message adds one frame to the end of the output buffer", p)
        if not app:
            continue
        content = [c for a in app for c in a[1]]
        # The constants around the two values: header, length, separator, body
        head = b""
        vals: list[T] = []
        shape = []
        for c in content:
            c = unver(c)
            if c.k == "const":
                if shape and isinstance(shape[-1], bytes):
                    shape[-1] += c.a[0]
                else:
                    shape.append(c.a[0])
            else:
                shape.append(None)
                vals.append(c)
        chk.must(shape == [b"Content-Length: ", None, b"\r\n\r\n", None], "frame-layout", app[0][2], f"the frame is the Content-Length header, an empty line and the body, it is {[show(c)[:40] for c in content]}", p)
        if len(vals) != 2:
            continue
        length, body = (unver(v.a[1]) if is_op(v, "encode") else v for v in vals)
        while is_op(length, "str", "encode"):
            length = unver(length.a[1])
        ok = False
        if is_op(length, "len"):
            of = unver(length.a[1])
            inner = unver(of.a[1]) if is_op(of, "encode") else of
            ok = same(inner, body) and (is_op(of, "encode") or ascii_json(body))
        chk.must(ok, "length-is-byte-length", app[0][2], f"the declared length is the byte length of the body, it is {show(length)[:80]}", p)
        chk.must(any(t2.k == "param" and t2.a[0] == "msg" for t2 in walk_term(body)), "body-is-the-message", app[0][2], "the body is the packed message", p)
    chk.floor(n, 1, "paths of queue_msg")

    # --- what is taken out to be sent
    q = f"{CONN}.data_to_send"
    n = 0
    for p in returns(chk.walk(q, raise_mode="none")):
        n += 1
        st = buffer_stores(p, out)
        base, lo, hi = flat_slice(p.value)
        chk.must(base is plain(mk("attr", self_, out, 0)) and lo == (0, {}), "sends-from-the-front", q, f"the data sent is the front of the output buffer, it is {show(p.value)[:80]}", p)
        if hi is not None and _is_len(hi, base, p):
            hi = None
        left = what_is_left(st[0]) if len(st) == 1 else None
        if left is not None:
            b2, lo2, hi2 = flat_slice(left)
            empty = (left.k == "const" and not left.a[0]) or (left.k == "new" or is_op(left, "bytearray") and len(left.a) == 1)
            if empty or b2 is not base:
                chk.must(empty and hi is None, "keeps-the-rest", st[0], "what is not sent stays in the buffer", p)
            else:
                rest = lo2 == (hi if hi is not None else lo2)
                if hi is None:
                    rest = _is_len(lo2, base, p)
                chk.must(rest and (hi2 is None or _is_len(hi2, base, p)), "keeps-the-rest", st[0], f"what is not sent stays in the buffer, it keeps {show(left)[:80]}", p)
        else:
            clear = len(st) == 1 and st[0].name == "clear"
            chk.must(clear and hi is None, "keeps-the-rest", q, "what is sent is removed from the buffer and nothing else", p)
    chk.floor(n, 1, "paths of data_to_send")
    # everything is sent by default
    d = [p for p in returns(chk.walk(q, raise_mode="none", args={"n": const(-1)}))]
    for p in d:
        base, lo, hi = flat_slice(p.value)
        chk.must(hi is None or _is_len(hi, base, p), "all-by-default", q, "without a limit everything queued is returned", p)

    # --- what is received
    q = f"{CONN}.receive_data"
    inb = in_buffer(chk)
    for p in returns(chk.walk(q, raise_mode="none")):
        app = appends(p, self_)
        ok = len(app) == 1 and len(buffer_stores(p, inb)) == 1 and len(app[0][1]) == 1
        if ok:
            c = plain(app[0][1][0])
            while is_op(c, "bytes", "bytearray"):
                c = c.a[1]
            ok = c is mk("param", "data")
        chk.must(ok, "received-data-appended", q, "received data is added once, whole, to the end of the input buffer", p)

    q = f"{CONN}.next_message"
    buf = mk("attr", self_, inb, 0)
    pbuf = plain(buf)
    msgs = nones = 0
    for p in chk.walk(q, raise_mode="none", opaque=[UNPACK]):
        st = buffer_stores(p, inb)
        un = did(p.events, "ProtocolMessage.unpack")
        if not un:
            if p.flow == "ret":
                nones += 1
                chk.must(p.value is NONE, "incomplete-yields-nothing", q, "without a complete frame there is no message", p)
                chk.must(not st, "incomplete-consumes-nothing", q, "an incomplete frame stays in the buffer", p)
                fs = facts_ge0(p.pc)
                short = any(_frame_short(f, pbuf) for f in fs)
                nohdr = any(is_op(k, "eq") and v and _is_find(plain(k.a[1] if k.a[2].k == "const" else k.a[2]), pbuf) and const(-1) in k.a for k, v in p.pc.items()) or any(
                    _find_negative(f, pbuf) for f in fs
                ) or any(is_op(k, "in") and v is False and plain(k.a[2]) is pbuf and k.a[1] is const(b"\r\n\r\n") for k, v in p.pc.items())
                chk.must(short or nohdr, "complete-frame-is-taken", q, "a message is only left in the buffer when its frame is not complete", p)
            continue
        msgs += 1
        loads = [t2 for t2 in walk_term(un[0].args) if (t2.k == "call" and match(t2.a[0], ["json.loads"])) or is_op(t2, "json.loads")]
        if not chk.must(loads, "message-from-json", un[0], "the message is decoded from its JSON body", p):
            continue
        arg = loads[0].a[2][0] if loads[0].k == "call" else loads[0].a[1]
        arg = unver(arg)
        if is_op(arg, "decode"):
            arg = unver(arg.a[1])
        base, lo, hi = flat_slice(arg)
        find = [k for k in lo[1] if _is_find(k, pbuf)]
        if not chk.must(base is pbuf and len(find) == 1 and lo == (4, {find[0]: 1}), "body-starts-after-header", un[0], f"the body starts right after the empty line, it is {show(arg)[:100]}", p):
            continue
        size = lsub(hi, lo) if hi is not None else None
        ok = False
        if size is not None and len(size[1]) == 1 and size[0] == 0 and next(iter(size[1].values())) == 1:
            v = next(iter(size[1]))
            ok = is_op(v, "int") and any(k.k == "const" and isinstance(k.a[0], bytes) and HEADER in k.a[0] for k in walk_term(v)) and any(
                k.k == "slice" and flat_slice(k) == (pbuf, (0, {}), (0, {find[0]: 1})) for k in filled(p, v)
            )
        if not chk.must(ok, "body-length-is-content-length", un[0], f"the body has the length the header declares, it is {show(arg)[:120]}", p):
            continue
        chk.must(implies_ge0(p.pc, lsub((0, {mk("op", "len", pbuf): 1}), hi)), "only-complete-frames", un[0], "a message is only decoded once all of its bytes are in the buffer", p)
        left = what_is_left(st[0]) if len(st) == 1 else None
        ok = left is not None
        if left is not None:
            b2, lo2, hi2 = flat_slice(left)
            ok = b2 is pbuf and lo2 == hi and (hi2 is None or _is_len(hi2, pbuf, p))
        chk.must(ok, "consumes-exactly-the-frame", st[0] if st else q, "exactly the bytes of the frame are consumed", p)
    chk.floor(nones, 1, "paths of next_message without a message")
    chk.floor(msgs, 1, "paths of next_message with a message")

    # --- the adapter drains what it has received before it reads on
    from .adapter import START, client_loop

    for read, recv, nexts, p in client_loop(chk):
        chk.must(recv is not None, "received-is-decoded", read, "what is read from the client is given to the decoder", p)
        if recv is not None:
            chk.must(plain(recv.args[0]) is plain(read.res), "received-is-decoded", recv, "exactly what was read is given to the decoder", p)
            chk.must(nexts, "decoder-is-drained", recv, "received data is decoded before more is read", p)
            if nexts and p.flow == "ret":
                last = nexts[-1]
                chk.must(truth_of(p.pc, last.res) is not True or none_of(p.pc, last.res) is True, "decoder-is-drained", last, "decoding goes on until there is no complete message left", p)


def _is_find(x: T, buf: T) -> bool:
    x = plain(x)
    return is_op(x, "find", "index") and plain(x.a[1]) is buf and x.a[2] is const(b"\r\n\r\n") and len(x.a) == 3


def _is_len(f: tuple, base: T, p: Path) -> bool:
    if f[0] != 0 or len(f[1]) != 1:
        return False
    k, c = next(iter(f[1].items()))
    ln = mk("op", "len", plain(base))
    if c != 1:
        return False
    if k is ln:
        return True
    if is_op(k, "min"):
        return all(plain(a) is ln for a in k.a[1:])
    return False


def _frame_short(f: tuple, buf: T) -> bool:
    """find + 4 + length - len(buf) - 1 >= 0"""
    ln = mk("op", "len", buf)
    c, d = f
    if d.get(ln) != -1:
        return False
    others = [k for k in d if k is not ln]
    finds = [k for k in others if _is_find(k, buf)]
    ints = [k for k in others if is_op(k, "int")]
    return len(others) == 2 and len(finds) == 1 and len(ints) == 1 and d[finds[0]] == 1 and d[ints[0]] == 1 and c == 3


def _find_negative(f: tuple, buf: T) -> bool:
    c, d = f
    return c <= -1 and len(d) == 1 and next(iter(d.values())) == -1 and _is_find(next(iter(d)), buf)


def c02(chk: Check) -> None:
    """DAP sequence numbers.

    The methods of one connection object are serialised by their callers (C12)."""
    self_ = mk("param", "self")
    q = f"{CONN}.queue_msg"
    PACK = "ansibug.dap._messages.ProtocolMessage.pack"
    counters: dict[str, str] = {}
    n = 0
    for p in returns(chk.walk(q, raise_mode="none", opaque=[PACK])):
        n += 1
        seqs = sets(p.events, "seq", mk("param", "msg"))
        if not chk.must(len(seqs) == 1, "message-gets-its-number", q, "a queued message is given its number once", p):
            continue
        v = plain(seqs[0].args[0])
        r, names = attr_path(v)
        if not chk.must(r is self_ and len(names) == 1, "number-is-the-counter", seqs[0], f"the number is the current value of the counter, it is {show(v)[:60]}", p):
            continue
        counters["out"] = names[0]
        packs = did(p.events, "pack")
        chk.must(packs and p.index(packs[0]) > p.index(seqs[0]), "numbered-before-packed", seqs[0], "the message carries its number when it is packed", p)
        inc = sets(p.events, names[0], self_)
        chk.must(len(inc) == 1 and lsub(lin(inc[0].args[0]), lin(v)) == (1, {}), "counter-advances-by-one", q, "every message advances the counter by one", p)
        chk.must(plain(p.value) is v, "sender-told-the-number", q, f"the number used is returned, it is {show(p.value)[:60]}", p)
    chk.floor(n, 1, "paths of queue_msg")

    q = f"{CONN}.next_message"
    m = 0
    for p in chk.walk(q, raise_mode="none", opaque=[UNPACK]):
        un = did(p.events, "ProtocolMessage.unpack")
        if not un:
            continue
        m += 1
        msg = un[0].res
        seq = None
        verdict = None
        for k, v in p.pc.items():
            if is_op(k, "eq"):
                a, b = plain(k.a[1]), plain(k.a[2])
                for x, y in ((a, b), (b, a)):
                    if attr_path(x)[1] == ["seq"] and attr_path(x)[0] is plain(msg) and attr_path(y)[0] is self_:
                        seq, verdict = y, v
        if p.flow == "ret":
            chk.must(plain(p.value) is plain(msg), "message-returned", q, "the decoded message is returned", p)
            if not chk.must(verdict is True, "unexpected-number-rejected", q, "a message is only accepted with the expected number", p):
                continue
        else:
            if not chk.must(verdict is False, "expected-number-accepted", q, "a message is only rejected for its number", p):
                continue
        name = attr_path(seq)[1][0]
        counters["in"] = name
        if p.flow == "ret":
            inc = sets(p.events, name, self_)
            chk.must(len(inc) == 1 and lsub(lin(inc[0].args[0]), lin(seq)) == (1, {}), "expected-advances-by-one", q, "an accepted message advances the expected number by one", p)
    chk.floor(m, 2, "paths of next_message with a message")

    for p in chk.walk(f"{CONN}.__init__", raise_mode="none"):
        for name in counters.values():
            st = sets(p.events, name)
            chk.must(len(st) == 1 and plain(st[0].args[0]) is const(1), "numbering-starts-at-one", f"{CONN}.__init__", f"the numbering starts at 1 ({name})", p)
    chk.must(len(set(counters.values())) == 2, "two-counters", CONN, "each direction has its own numbering")
    # No other method of the connection touches the numbering
    cls = chk.program.cls(CONN)
    for name, f in cls.methods.items():
        if name in ("__init__", "queue_msg", "next_message") or f.is_property or name.startswith("_"):
            continue
        for p in chk.walk(f, raise_mode="none"):
            chk.must(not [e for e in sets(p.events) if e.callee in counters.values()], "only-messages-are-numbered", f, "only sent and received messages advance the numbering", p)
