"""TLS, the permissions of Unix sockets and addresses: C34, C35, C36, C43."""

from __future__ import annotations

import ast
import itertools

from ..program import AnalysisError
from ..report import Check
from ._util import *
from .transport import CLIENTQ, QUEUE, SELF, SERVERQ, TOKEN, arguments, const, is_named

CONTEXT = "_ssl_context"
WIDE = ("OSError", "Exception", "BaseException", "IOError", "EnvironmentError", "error")


# --- C35 -----------------------------------------------------------------------
class Wires:
    """Which sockets the helpers of a path hold, followed event by event."""

    def __init__(self) -> None:
        self.alias: dict[T, T] = {}

    def resolve(self, x) -> T | None:
        if not isinstance(x, T):
            return None
        x = plain(x)
        for _ in range(8):
            if x.k == "attr":
                x = mk("attr", self.resolve(x.a[0]), x.a[1])
            nxt = self.alias.get(x)
            if nxt is None:
                return x
            x = nxt
        return x

    def assign(self, e: Ev) -> None:
        if e.kind == "setattr" and isinstance(e.args[0], T):
            left = mk("attr", self.resolve(e.recv), e.callee)
            right = self.resolve(e.args[0])
            self.alias.pop(left, None)
            if right is not left:
                self.alias[left] = right


IO = ("recv_into", "sendall", "recv", "send", "read", "write", "sendfile", "sendmsg", "recvmsg")


def tls_paths(chk: Check, q: str, mode: str) -> list[Path]:
    names = {"wrap_socket", "do_handshake", "accept", "close", "start", "connect", "shutdown", "detach", "unwrap", "getaddrinfo", *IO}
    return slim(
        chk, f"{q}.start", mode=mode, names=names, attrs=("_sock", "_socket"), kinds=("raise", "caught", "loop", "loopend", "loopbreak"),
        opaque=[*[f"{TOKEN}.{m}" for m in ("accept", "connect", "do_handshake", "recv_into", "sendall")], f"{QUEUE}.start"],
    )


def configured(p: Path) -> bool:
    """Whether TLS can be configured on a path."""
    x = mk("attr", SELF, CONTEXT)
    return truth_of(p.pc, x) is not False and none_of(p.pc, x) is not True


def is_io(e: Ev) -> T | None:
    """The socket that data is sent or received on."""
    if e.kind != "call" or e.name not in IO:
        return None
    if e.callee.startswith(TOKEN):
        return e.arg(0, "sock")
    return e.recv if e.callee.startswith(("socket.", "ssl.", "?")) else None


def handshakes(chk: Check, q: str, server: bool) -> int:
    n = 0
    for p in tls_paths(chk, q, "all"):
        if not configured(p):
            continue
        w = Wires()
        wrapped: dict[T, Ev] = {}
        ready: set[T] = set()
        for e in p.events:
            w.assign(e)
            if e.kind == "call" and e.name == "wrap_socket" and not e.raised:
                r, names = attr_path(e.recv) if e.recv is not None else (None, [])
                chk.must(r is SELF and names == [CONTEXT], "configured-context", e, "the connection is wrapped with another context than the configured one", p)
                side = e.kwargs.get("server_side")
                side = e.arg(1, "server_side") if side is None else side
                chk.must((const(side) is True) == server and (const(side) in (True, False) or side is None), "configured-context", e, "the connection is wrapped as the wrong side", p)
                if plain(e.res) is not None:
                    wrapped[plain(e.res)] = e
            elif e.kind == "call" and e.name == "do_handshake" and not e.raised:
                s = w.resolve(e.arg(0, "sock") if e.callee.startswith(TOKEN) else e.recv)
                if s in wrapped:
                    n += 1
                    ready.add(s)
            elif is_io(e) is not None:
                s = w.resolve(is_io(e))
                chk.must(s in ready, "handshake-first", e, f"{e.name} is used on a connection that has not finished the handshake: {show(s)[:70]}", p)
            elif e.kind in ("call", "enter") and (e.callee == f"{QUEUE}.start" or e.callee.endswith("Thread.start")) and not e.raised:
                s = w.resolve(mk("attr", mk("attr", SELF, "_socket"), "_sock"))
                chk.must(s in ready, "handshake-first", e, f"messages are exchanged on a connection that has not finished the handshake: {show(s)[:70]}", p)
            elif e.kind == "call" and e.name in ("unwrap", "detach"):
                chk.must(False, "handshake-first", e, "the encryption is removed again", p)
        if p.flow == "ret":
            s = w.resolve(mk("attr", mk("attr", SELF, "_socket"), "_sock"))
            chk.must(s in ready, "handshake-first", f"{q}.start", f"the connection that is used is not the encrypted one: {show(s)[:70]}", p)
    return n


def client_name(chk: Check) -> int:
    """The name that is verified is the one that was connected to."""
    n = 0
    for p in tls_paths(chk, CLIENTQ, "none"):
        for e in [e for e in p.events if e.kind == "call" and e.name == "wrap_socket"]:
            n += 1
            name = e.kwargs.get("server_hostname")
            if name is None:
                name = e.arg(4, "server_hostname")
            hosts = connected_to(p, e)
            base = plain(name) if isinstance(name, T) else None
            if base is not None and base.k == "slice" and const(base.a[1]) in (0, None):
                # A path that is too long for a host name is cut off.
                chk.must(unix_path(p, base.a[0]), "verified-name", e, "only a part of the host name is verified", p)
                base = base.a[0]
            chk.must(base is not None and any(same(base, h) for h in hosts), "verified-name", e, f"the name that is verified is {show(base) if base is not None else None}, not {[show(h) for h in hosts]}", p)
    return n


def unix_path(p: Path, x: T) -> bool:
    return isa_of(p.pc, x, "str") is True


def connected_to(p: Path, e: Ev) -> list[T]:
    """The hosts or paths a connection was made to."""
    res = []
    for c in before(p, e):
        if c.kind == "call" and c.name in ("connect", "connect_ex", "create_connection"):
            a = c.arg(1, "addr") if c.callee.startswith(TOKEN) else c.arg(0, "address")
            if not isinstance(a, T):
                continue
            a = plain(a)
            looked = [k for k in walk_term(a) if is_named(k, "getaddrinfo")]
            for k in looked:
                pos, named = arguments(k)
                h = pos[0] if pos else named.get("host")
                if isinstance(h, T):
                    res.append(plain(h))
                    base = plain(h)
                    if is_op(base, "or") or is_op(base, "orelse"):
                        res += [plain(b) for b in base.a[1:] if isinstance(b, T)]
            if not looked:
                res.append(a)
                res.append(plain(mk("item", a, mk("const", 0))))
    return res


def server_survives(chk: Check) -> int:
    """A client that fails the handshake is dropped and the next one is waited for."""
    f = f"{SERVERQ}.start"
    n = 0
    for p in tls_paths(chk, SERVERQ, "all"):
        if truth_of(p.pc, mk("attr", SELF, CONTEXT)) is False or none_of(p.pc, mk("attr", SELF, CONTEXT)) is True:
            continue
        w = Wires()
        listener = mk("attr", mk("attr", SELF, "_socket"), "_sock")
        failed = None
        replaced = False
        for e in p.events:
            if e.kind == "setattr" and e.callee == "_socket" and e.recv is SELF:
                replaced = True
            w.assign(e)
            if e.kind == "call" and e.raised and (e.name == "do_handshake" or is_io(e) is not None):
                failed = e
            if e.kind == "call" and e.name == "close" and e.recv is not None and not replaced and plain(e.recv) is listener:
                rest = [x for x in after(p, e) if x.kind == "call" and (x.name in ("accept", "do_handshake") or is_io(x) is not None)]
                done = [x for x in before(p, e) if x.kind == "call" and (x.name == "do_handshake" or is_io(x) is not None)]
                chk.must(not rest and done and not done[-1].raised, "listener-kept", e, "the listener is closed before a client has finished the handshake", p)
        if failed is None:
            continue
        caught = [x for x in after(p, failed) if x.kind == "caught"]
        if caught and tail(caught[0].callee) in WIDE:
            n += 1
            later = after(p, caught[0])
            again = [x for x in later if x.kind == "call" and x.name == "accept"]
            over = [x for x in later if x.kind in ("call", "new") and x.raised]
            chk.must(again or over, "listener-kept", failed, "the next client is not waited for after a failed handshake", p)
            if again:
                dropped = [x for x in later if x.kind == "call" and x.name in ("close", "shutdown") and p.index(x) < p.index(again[0])]
                chk.must(dropped, "failed-is-dropped", again[0], "a client that failed the handshake stays connected", p)
            if p.flow == "raise":
                chk.must(over, "listener-kept", failed, "a failed handshake ends the listener", p)
    return n


def stores_context(chk: Check, q: str) -> None:
    f = chk.program.func(f"{q}.__init__")
    want = mk("param", "ssl_context")
    for p in returns(slim(chk, f, attrs=(CONTEXT,), kinds=())):
        got = [e for e in p.events if e.kind == "setattr" and e.callee == CONTEXT and e.recv is SELF]
        ok = got and (same(got[-1].args[0], want) or got[-1].args[0] is NONE and (truth_of(p.pc, want) is False or none_of(p.pc, want) is True))
        chk.must(ok, "configured-context", f, "the configured context is not the one that is used", p)




def c35(chk: Check) -> None:
    """Typestate of a connection: plain, wrapped, ready; data is only exchanged when it is ready."""
    chk.floor(handshakes(chk, CLIENTQ, False), 2, "handshakes of the client")
    chk.floor(handshakes(chk, SERVERQ, True), 2, "handshakes of the server")
    chk.floor(client_name(chk), 2, "names that are verified")
    for q in (CLIENTQ, SERVERQ):
        stores_context(chk, q)
    n = server_survives(chk)
    if not n:
        chk.must(False, "listener-kept", f"{SERVERQ}.start", "a failed handshake ends the listener")


# --- C34 -----------------------------------------------------------------------
TLS = f"{PKG}._tls"
CLIENT_TLS = f"{TLS}.create_client_tls_context"
SERVER_TLS = f"{TLS}.create_server_tls_context"


def purpose(x) -> str:
    """The last name of an enum value or a constant of a module."""
    return tail(show(plain(x))) if isinstance(x, T) else ""


class Context:
    """What is known about a context at the end of a path."""

    def __init__(self, e: Ev) -> None:
        self.made = e
        self.host = self.mode = None
        self.own = False
        self.refused = False
        self.defaults = False
        pos = [a for a in e.args]
        if e.name == "create_default_context":
            a = e.arg(0, "purpose")
            client = a is None or purpose(a) == "SERVER_AUTH"
            self.host, self.mode = client, "CERT_REQUIRED" if client else "CERT_NONE"
            given = [x for x in (e.kwargs.get("cafile"), e.kwargs.get("capath"), e.kwargs.get("cadata"), *pos[1:]) if isinstance(x, T)]
            self.defaults = client and not given
            self.locations = given
        else:
            proto = purpose(e.arg(0, "protocol"))
            client = proto == "PROTOCOL_TLS_CLIENT"
            self.host, self.mode = client, "CERT_REQUIRED" if client else "CERT_NONE"
            self.locations = []
        self.chains: list[Ev] = []
        self.loads: list[Ev] = []

    @property
    def verifies(self) -> bool:
        return self.host is True and self.mode == "CERT_REQUIRED"


MAKERS = ("create_default_context", "SSLContext", "_create_unverified_context", "_create_stdlib_context", "_create_default_https_context")


def contexts(p: Path) -> dict[T, Context]:
    res: dict[T, Context] = {}
    for e in p.events:
        if e.kind in ("call", "new") and e.name in MAKERS and e.callee.startswith("ssl.") and isinstance(e.res, T):
            res[plain(e.res)] = Context(e)
        c = res.get(plain(e.recv)) if e.recv is not None else None
        if c is None:
            continue
        if e.kind == "setattr" and e.callee == "check_hostname":
            c.host = const(e.args[0])
        elif e.kind == "setattr" and e.callee == "verify_mode":
            v = const(e.args[0])
            c.mode = {0: "CERT_NONE", 1: "CERT_OPTIONAL", 2: "CERT_REQUIRED"}.get(v, purpose(e.args[0]))
            c.refused = c.refused or c.mode == "CERT_NONE" and c.host is True
        elif e.kind == "call" and e.name == "load_default_certs":
            c.defaults = True
        elif e.kind == "call" and e.name == "load_cert_chain":
            c.chains.append(e)
        elif e.kind == "call" and e.name == "load_verify_locations":
            c.loads.append(e)
    return res


def derived(x, want: T) -> bool:
    """A path that is a given one, expanded or made absolute."""
    x = plain(x) if isinstance(x, T) else x
    seen = 0
    while isinstance(x, T) and x is not want and seen < 12:
        seen += 1
        if x.k == "op" and len(x.a) == 2 and isinstance(x.a[1], T):
            x = x.a[1]
        elif x.k == "call":
            inner = [a for a in (*([x.a[1]] if isinstance(x.a[1], T) else []), *x.a[2]) if isinstance(a, T)]
            if len(inner) != 1:
                return False
            x = inner[0]
        elif x.k in ("new", "path"):
            return False
        else:
            return x is want
    return x is want


def location_loaded(chk: Check, c: Context, p: Path, want: T, f: str) -> None:
    chk.must(len(c.loads) >= 1, "custom-ca", f, "a CA location that is given is not used", p)
    for e in c.loads:
        cafile, capath = e.arg(0, "cafile"), e.arg(1, "capath")
        for x, kind in ((cafile, "file"), (capath, "directory")):
            if not isinstance(x, T) or x is NONE:
                continue
            chk.must(mentions(plain(x), want), "custom-ca", e, f"the CA {kind} is {show(x)[:60]}, not the one that is given", p)
            if kind == "directory":
                # OpenSSL does not say that a directory does not exist.
                known = any((is_named(plain(k.a[1]), "is_dir") or is_named(plain(k.a[1]), "isdir") or is_named(plain(k.a[1]), "exists") and kind == "directory") and v and mentions(plain(k), want) for k, v in p.pc.items() if is_op(k, "truthy"))
                chk.must(known, "custom-ca", e, "a CA location that does not exist is not an error", p)
        chk.must(any(isinstance(x, T) and x is not NONE for x in (cafile, capath)), "custom-ca", e, "a CA location that is given is not used", p)


def chain_loaded(chk: Check, c: Context, p: Path, f: str, needed: bool | None) -> None:
    """The certificate, key and password are those that are given."""
    want = {k: mk("param", k) for k in ("certfile", "keyfile", "password")}
    if needed is not False:
        chk.must(len(c.chains) >= 1, "own-certificate", f, "a certificate that is given is not used", p)
    for e in c.chains:
        for i, (k, v) in enumerate(want.items()):
            got = e.arg(i, k)
            none = v is not want["certfile"] and (truth_of(p.pc, v) is False or none_of(p.pc, v) is True)
            ok = isinstance(got, T) and (derived(got, v) or or_none(got, v)) or none and (got is None or got is NONE)
            chk.must(ok, "own-certificate", e, f"the {k} that is given is not used, but {show(got) if isinstance(got, T) else None}", p)


def or_none(x: T, want: T) -> bool:
    x = plain(x)
    return is_op(x, "or", "orelse") and same(x.a[1], want)


def known_word(p: Path, x: T, word: str) -> bool | None:
    for k, v in p.pc.items():
        q = plain(k)
        if is_op(q, "eq") and x in q.a[1:]:
            o = q.a[2] if q.a[1] is x else q.a[1]
            c = const(o)
            if c == word:
                return v
            if v and isinstance(c, str):
                return False
    return None


def client_context(chk: Check) -> int:
    f = chk.program.func(CLIENT_TLS)
    verify = mk("param", f.params[0].arg)
    n = 0
    modes = set()
    for p in returns(chk.walk(f, raise_mode="none")):
        c = contexts(p).get(plain(p.value))
        if c is None:
            raise AnalysisError(f"{f.qual} makes its context in a way that is not understood: {show(p.value)[:80]}")
        n += 1
        ignore, plainly = known_word(p, verify, "ignore"), known_word(p, verify, "verify")
        if ignore is True:
            modes.add("ignore")
            # Python refuses a context that checks the name in a certificate it does not verify.
            chk.must(not c.refused and c.host is not True and c.mode != "CERT_REQUIRED", "ignore-works", f, f"a server the user does not want to be verified cannot be connected to (host name {c.host}, {c.mode})", p)
            continue
        chk.must(c.verifies, "client-verifies", f, f"a server is not verified (host name {c.host}, {c.mode})", p)
        chk.must(c.defaults, "custom-ca", f, "the CAs that are trusted by default are not trusted any more", p)
        if plainly is not True:
            modes.add("location")
            if plainly is False:
                location_loaded(chk, c, p, verify, f.qual)
            else:
                chk.must(c.loads, "custom-ca", f, "a CA location that is given is not used", p)
        chain_loaded(chk, c, p, f.qual, truth_of(p.pc, mk("param", "certfile")))
    for p in returns(chk.walk(f, raise_mode="none")):
        c = contexts(p).get(plain(p.value))
        if c is not None:
            chain_loaded(chk, c, p, f.qual, truth_of(p.pc, mk("param", "certfile")))
    chk.must("location" in modes, "custom-ca", f, "a CA location cannot be given")
    return n


def server_context(chk: Check) -> int:
    f = chk.program.func(SERVER_TLS)
    ca = mk("param", "ca_trust")
    n = 0
    for p in returns(chk.walk(f, raise_mode="none")):
        c = contexts(p).get(plain(p.value))
        if c is None:
            raise AnalysisError(f"{f.qual} makes its context in a way that is not understood: {show(p.value)[:80]}")
        n += 1
        chain_loaded(chk, c, p, f.qual, True)
        if truth_of(p.pc, ca) is False or none_of(p.pc, ca) is True:
            continue
        chk.must(c.mode == "CERT_REQUIRED", "server-requires", f, f"a client does not need a certificate ({c.mode})", p)
        location_loaded(chk, c, p, ca, f.qual)
    return n


def option(x, name: str, default: object = None, key: str = "get") -> bool:
    """A value is the option of a name, as it was given."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return False
    if is_named(x, "get_option"):
        pos, _ = arguments(x)
        return bool([a for a in pos if const(a) == name])
    return False


def json_value(x, name: str, default: object) -> bool:
    x = plain(x) if isinstance(x, T) else x
    return is_op(x, "get") and const(x.a[2]) == name and (const(x.a[3]) if len(x.a) > 3 else None) == default


def attach_uses(chk: Check) -> int:
    """An attach request that asks for TLS is made with the settings that it has."""
    from .adapter import CONNECT_BOUNDARY, SERVER, handler

    f = handler(chk, SERVER, "AttachRequest")
    n = 0
    conn = f"{ADAPTER}.AttachArguments.get_connection_tuple"
    for p in returns(chk.walk(f, raise_mode="none", opaque=CONNECT_BOUNDARY + [CLIENT_TLS, conn])):
        made = [e for e in p.events if e.kind == "call" and e.callee == CLIENT_TLS]
        news = [e for e in p.events if e.kind == "new" and e.callee == CLIENTQ]
        asked = [e for e in p.events if e.kind == "call" and e.callee == conn]
        for e in news:
            use = truth_of(p.pc, mk("item", plain(asked[-1].res), mk("const", 1))) if asked else None
            if use is False:
                continue
            n += 1
            a = e.kwargs.get("ssl_context")
            chk.must(isinstance(a, T) and made and same(a, made[-1].res), "tls-is-used", e, "a connection that has to use TLS does not use it", p)
        for e in made:
            for i, (k, name, default) in enumerate((("verify", "tlsVerification", "verify"), ("certfile", "tlsCertificate", None), ("keyfile", "tlsKey", None), ("password", "tlsKeyPassword", None))):
                a = e.arg(i, k)
                chk.must(json_value(a, name, default), "settings-are-used", e, f"{k} is {show(a)[:60] if isinstance(a, T) else a}, not the {name} of the request", p)
    return n


def listener_uses(chk: Check) -> int:
    """A listener that is to use TLS is made with the options of the plugin."""
    start = f"{DEBUGGEE}.AnsibleDebugger.start"
    n = 0
    others = [f.qual for f in functions_of(chk.program, [f"{PU}._breakpoints"])]
    for p in returns(chk.walk(f"{CALLBACK}.CallbackModule.v2_playbook_on_start", raise_mode="none", opaque=[SERVER_TLS, start, *others])):
        made = [e for e in p.events if e.kind == "call" and e.callee == SERVER_TLS]
        for e in [e for e in p.events if e.kind == "call" and e.callee == start]:
            off = any(option(plain(k.a[1]), "use_tls") and not v for k, v in p.pc.items() if is_op(k, "truthy"))
            other = any(is_op(plain(k), "eq") and any(option(a, "mode") for a in plain(k).a[1:]) and any(const(a) == "listen" for a in plain(k).a[1:]) and not v for k, v in p.pc.items())
            connects = any(is_op(plain(k), "eq") and any(option(a, "mode") for a in plain(k).a[1:]) and any(const(a) == "connect" for a in plain(k).a[1:]) and v for k, v in p.pc.items())
            if off or other or connects:
                continue
            n += 1
            a = e.kwargs.get("ssl_context")
            chk.must(isinstance(a, T) and made and same(a, made[-1].res), "tls-is-used", e, "a listener that has to use TLS does not use it", p)
        for e in made:
            for i, (k, name) in enumerate((("certfile", "tls_server_certfile"), ("keyfile", "tls_server_keyfile"), ("password", "tls_server_key_password"), ("ca_trust", "tls_client_ca"))):
                a = e.arg(i, k)
                chk.must(option(a, name), "settings-are-used", e, f"{k} is {show(a)[:60] if isinstance(a, T) else a}, not the option {name}", p)
    return n


def debuggee_uses(chk: Check) -> int:
    n = 0
    for p in returns(slim(chk, f"{DEBUGGEE}.AnsibleDebugger.start", names=("ClientMPQueue", "ServerMPQueue"), kinds=())):
        for e in [e for e in p.events if e.kind == "new" and e.callee in (CLIENTQ, SERVERQ)]:
            n += 1
            a = e.kwargs.get("ssl_context")
            want = mk("param", "ssl_context")
            none = truth_of(p.pc, want) is False or none_of(p.pc, want) is True
            chk.must(isinstance(a, T) and same(a, want) or none and (a is None or a is NONE), "tls-is-used", e, "a connection that has to use TLS does not use it", p)
    return n


def c34(chk: Check) -> None:
    """The state of every context on every path on which it is made, and where its settings come from."""
    chk.floor(client_context(chk), 4, "ways a client context is made")
    chk.floor(server_context(chk), 2, "ways a server context is made")
    chk.floor(attach_uses(chk), 1, "connections of the adapter with TLS")
    chk.floor(listener_uses(chk), 1, "listeners with TLS")
    chk.floor(debuggee_uses(chk), 2, "connections of the debuggee")
    seen = visited([*chk.walk(CLIENT_TLS, raise_mode="none"), *chk.walk(SERVER_TLS, raise_mode="none")])
    mods = [m for m in chk.program.modules if m.startswith(PKG)] if hasattr(chk.program, "modules") else [TLS, MPQ, SOCK, ADAPTER, DEBUGGEE]
    for g, node in sites(chk.program, mods, is_call_of(*MAKERS)):
        if isinstance(node.func, ast.Attribute) and ast.unparse(node.func.value) != "ssl":
            continue
        chk.must((g.module.rel, node.lineno) in seen, "client-verifies", g, f"line {node.lineno} makes another context")
    for g, node in sites(chk.program, mods, lambda n: isinstance(n, (ast.Assign, ast.AnnAssign)) and any(isinstance(x, ast.Attribute) and x.attr in ("verify_mode", "check_hostname") for x in (n.targets if isinstance(n, ast.Assign) else [n.target]))):
        chk.must((g.module.rel, node.lineno) in seen, "client-verifies", g, f"line {node.lineno} changes how a peer is verified")


# --- C36 -----------------------------------------------------------------------
def unix_socket(e: Ev, p: Path) -> bool | None:
    """Whether the socket of an operation is a Unix socket."""
    for x in before(p, e):
        if x.kind == "new" and x.callee == "socket.socket" and same(x.res, e.recv):
            fam = x.arg(0, "family")
            if fam is None:
                return False
            name = purpose(fam)
            return True if name == "AF_UNIX" else False if name in ("AF_INET", "AF_INET6") else None
    return None


def bits(x) -> tuple[bool, int] | None:
    """(inverted, value) of a mask that is known."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    v = const(x)
    if isinstance(v, int) and not isinstance(v, bool):
        return False, v
    if x.k == "op" and str(x.a[0]).lower() in ("invert", "not_", "~"):
        b = bits(x.a[1])
        return None if b is None else (False, ~b[1] if not b[0] else b[1])
    if x.k == "op" and str(x.a[0]) in ("bitand", "bitor", "bitxor", "sub", "band", "bor") and len(x.a) == 3:
        l, r = bits(x.a[1]), bits(x.a[2])
        if l and r:
            f = {"bitand": int.__and__, "band": int.__and__, "bitor": int.__or__, "bor": int.__or__, "bitxor": int.__xor__, "sub": int.__sub__}[str(x.a[0])]
            return False, f(l[1], r[1])
    if is_op(x, "neg", "sum"):
        c, d = lin(x)
        if not d:
            return False, c
        if len(d) == 1:
            (k, m), = d.items()
            b = bits(k)
            return None if b is None else (False, c + m * b[1])
    return None


def only_user(x) -> bool | None:
    b = bits(x)
    return None if b is None else b[1] & 0o077 == 0 and b[1] & 0o600 == 0o600


def hides(x) -> bool | None:
    b = bits(x)
    return None if b is None else b[1] & 0o077 == 0o077 and b[1] & 0o600 == 0


def binders(chk: Check) -> list:
    """The functions from which a Unix socket is bound with a known mask."""
    fs = functions_of(chk.program, [MPQ, SOCK, ADAPTER, DEBUGGEE])
    direct = {f.qual: f for f in fs if any(isinstance(n, ast.Attribute) and n.attr == "bind" for n in ast.walk(f.node))}
    todo, res, seen = list(direct.values()), {}, set()
    while todo:
        f = todo.pop()
        if f.qual in seen:
            continue
        seen.add(f.qual)
        users = [g for g in fs if g.qual != f.qual and any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == f.name or isinstance(n.func, ast.Attribute) and n.func.attr == f.name) for n in ast.walk(g.node))]
        if users and f.name != "__init__":
            todo += users
        else:
            res[f.qual] = f
    return list(res.values())


def c36(chk: Check) -> None:
    """Typestate of a Unix socket (its permissions) and of the umask of the process on every path, exceptions included."""
    n = 0
    lines = set()
    for f in binders(chk):
        paths = slim(chk, f, mode="all", names=("bind", "fchmod", "chmod", "lchmod", "umask", "socket", "listen"), kinds=("raise", "caught"), noraise=["socket.socket.close"])
        lines |= visited(paths)
        for p in paths:
            perms: dict[T, T] = {}
            original = current = None
            stuck = False
            for e in p.events:
                if e.kind != "call":
                    continue
                if e.callee == "os.umask":
                    if e.raised:
                        stuck = current is not None
                        continue
                    a = e.arg(0, "mask")
                    if original is None:
                        original, current = plain(e.res), plain(a)
                    elif same(a, original):
                        original = current = None
                    else:
                        current = plain(a)
                elif e.name == "fchmod" and not e.raised:
                    fd = e.arg(0, "fd")
                    for x in walk_term(plain(fd)):
                        perms[x] = e.arg(1, "mode")
                    bound = [b for b in before(p, e) if b.kind == "call" and b.name == "bind"]
                    if bound:
                        chk.must(only_user(e.arg(1, "mode")) is True, "never-widened", e, "the permissions of the socket are changed after others could see it", p)
                elif e.name == "bind":
                    kind = unix_socket(e, p)
                    if kind is False:
                        continue
                    n += 1
                    m = perms.get(plain(e.recv))
                    ok = m is not None and only_user(m) is True or current is not None and hides(current) is True
                    chk.must(ok, "restricted-when-bound", e, f"the socket becomes visible without restricted permissions (mode {show(m) if m is not None else None}, umask {show(current) if current is not None else None})", p)
            if not stuck:
                chk.must(original is None, "umask-restored", f, "the umask of the process is not restored", p)
    chk.floor(n, 3, "bound Unix sockets on paths")
    for g, node in sites(chk.program, [MPQ, SOCK], is_call_of("chmod", "fchmod", "lchmod")):
        if (g.module.rel, node.lineno) in lines and (isinstance(node.func, ast.Attribute) and node.func.attr == "fchmod"):
            continue
        mode = node.args[-1] if node.args else None
        ok = isinstance(mode, ast.Constant) and isinstance(mode.value, int) and mode.value & 0o077 == 0
        chk.must(ok, "never-widened", g, f"line {node.lineno} changes the permissions of a socket after others could see it")
    for g, node in sites(chk.program, [MPQ, SOCK, ADAPTER, DEBUGGEE], lambda x: isinstance(x, ast.Call) and tail(ast.unparse(x.func)) in ("UnixStreamServer", "start_unix_server", "create_unix_server")):
        chk.must(False, "restricted-when-bound", g, f"line {node.lineno} makes a Unix socket without restricted permissions")
    for g, node in sites(chk.program, [MPQ, SOCK, ADAPTER, DEBUGGEE], is_call_of("bind")):
        chk.must((g.module.rel, node.lineno) in lines, "restricted-when-bound", g, f"line {node.lineno} binds a socket that was not looked at")


# --- C43 -----------------------------------------------------------------------
PARSE = f"{SOCK}.parse_addr_string"
ADDRESS = mk("param", "value")


def atom(x, value: T) -> str | None:
    """The part of an address that a term is: 'path' of the address, or 'q.path' of the quoted one, decoded."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    decoded = False
    if is_named(x, "unquote"):
        pos, named = arguments(x)
        x, decoded = plain(pos[0]), True
        if "encoding" in named or len(pos) > 1:
            return None
    name = None
    if x.k == "attr":
        x, name = plain(x.a[0]), x.a[1]
    elif x.k == "item" and isinstance(const(x.a[1]), int):
        name = (["scheme", "netloc", "path", "query", "fragment"] + [None] * 9)[const(x.a[1])]
        x = plain(x.a[0])
    if name is None or not is_named(x, "urlsplit"):
        return None
    pos, named = arguments(x)
    src = plain(pos[0]) if pos and isinstance(pos[0], T) else None
    if named or len(pos) != 1 or src is None:
        return None
    if src is value:
        return None if decoded and name not in ("netloc", "path") else ("dq." if decoded else "") + name
    if is_named(src, "quote"):
        pos, named = arguments(src)
        safe = const(named.get("safe")) if "safe" in named else const(pos[1]) if len(pos) > 1 else "/"
        if pos and plain(pos[0]) is value and isinstance(safe, str) and not set(safe) & set("?#%[]@\t\r\n") and ":" in safe and "/" in safe:
            return ("q." if decoded else "raw.") + name
    return None


def outcomes(value: T):
    """Every kind of address, as what is known of its parts, and what is to come of it."""
    res = []
    for path, query, fragment, user, host, port in itertools.product(("", "x"), ("", "x"), ("", "x"), (None, "x"), (None, "x"), (None, 0, 1)):
        netloc = "x" if host or user or port is not None else ""
        if user == "x" and host is None and port is None:
            continue
        case = {"scheme": "tcp", "path": path, "query": query, "fragment": fragment, "username": user, "hostname": host, "port": port, "netloc": netloc}
        if path or query or fragment or user is not None:
            want = ("raise",)
        elif netloc == "":
            want = ("tcp", "", 0)
        elif port is None:
            want = ("raise",)
        else:
            want = ("tcp", "hostname" if host else "", "port")
        res.append((case, want))
    for netloc, path in itertools.product(("", "x"), ("", "x", "/x")):
        if netloc and path == "x":
            continue
        case = {"scheme": "uds", "q.scheme": "uds", "raw.scheme": "uds", "q.netloc": netloc, "raw.netloc": netloc, "q.path": path, "raw.path": path, "netloc?": netloc, "path?": path}
        if netloc and path or path == "x":
            want = ("raise",)
        elif netloc:
            want = ("temp", "netloc")
        elif path:
            want = ("path",)
        else:
            want = ("random",)
        res.append((case, want))
    res.append(({"scheme": "other"}, ("raise",)))
    return res


MISSING = object()


def fact_in(case: dict, k: T, value: T) -> bool | None:
    """Whether a condition holds for a kind of address; None when that is not known."""
    k = plain(k)

    def val(x):
        c = const(x)
        if c is not None or x is NONE:
            return c
        a = atom(x, value)
        return case.get(a, MISSING) if a is not None else MISSING

    if k.k != "op":
        return None
    op = k.a[0]
    if op == "not":
        r = fact_in(case, k.a[1], value)
        return None if r is None else not r
    if op in ("and", "or"):
        rs = [fact_in(case, x, value) for x in k.a[1:]]
        if op == "and":
            return False if False in rs else None if None in rs else True
        return True if True in rs else None if None in rs else False
    if op == "truthy":
        x = plain(k.a[1])
        if is_op(x, "startswith"):
            v, pre = val(x.a[1]), const(x.a[2])
            return None if v is MISSING or not isinstance(pre, str) else bool(v) and v.startswith(pre)
        if is_named(x, "isabs"):
            pos, _ = arguments(x)
            v = val(plain(pos[-1]))
            return None if v is MISSING else bool(v) and v.startswith("/")
        if is_op(x, "or", "orelse", "and", "not", "eq", "isnone", "in", "isa"):
            return fact_in(case, x, value)
        v = val(x)
        return None if v is MISSING else bool(v)
    if op == "isnone":
        v = val(k.a[1])
        return None if v is MISSING else v is None
    if op == "eq":
        a, b = val(plain(k.a[1])), val(plain(k.a[2]))
        if a is MISSING or b is MISSING:
            return None
        if a == "other" or b == "other":
            return False
        if "x" in (a, b) or "/x" in (a, b) or 1 in (a, b):
            # A value that is only known to be there.
            return False if "" in (a, b) or None in (a, b) or 0 in (a, b) and type(a) is type(b) else None
        return a == b
    if op == "in":
        c, v = const(k.a[1]), atom(k.a[2], value)
        if c == "@" and v == "netloc" and "username" in case:
            return case["username"] is not None
        if isinstance(c, str) and v is not None and case.get(v) == "":
            return False
        x = plain(k.a[2])
        if x.k in ("tuple", "lit") and all(const(i) is not None for i in x.a):
            v = val(plain(k.a[1]))
            return None if v is MISSING or v == "x" else v in [const(i) for i in x.a]
    return None


def names_part(x, name: str, value: T, case: dict) -> bool:
    """A result is a part of the address, perhaps with what stands for a missing one."""
    x = plain(x) if isinstance(x, T) else x
    a = atom(x, value)
    if a == name:
        return True
    if isinstance(x, T) and is_op(x, "or", "orelse") and atom(x.a[1], value) == name:
        return True
    return isinstance(x, T) and const(x) is not None and const(x) == case.get(name, MISSING) and const(x) not in ("x", 1)


def temp_dir(x) -> bool:
    return any(is_named(k, "gettempdir") for k in walk_term(plain(x)))


def result_is(v, want: tuple, case: dict, value: T) -> bool:
    v = plain(v) if isinstance(v, T) else v
    if not isinstance(v, T):
        return False
    if want[0] == "tcp":
        if v.k != "tuple" or len(v.a) != 2:
            return False
        host, port = v.a
        h = const(host) == "" or is_op(plain(host), "or", "orelse") and const(plain(host).a[-1]) == "" or names_part(host, "hostname", value, case) and case["hostname"] == "" if want[1] == "" else names_part(host, "hostname", value, case)
        p = (const(port) == 0 and const(port) is not False or is_op(plain(port), "or", "orelse") and const(plain(port).a[-1]) == 0) if want[2] == 0 else names_part(port, "port", value, case)
        return bool(h and p)
    while is_op(v, "str", "fspath"):
        v = plain(v.a[1])
    if want == ("path",):
        return atom(v, value) == "q.path"
    if want == ("temp", "netloc"):
        parts = [plain(k) for k in walk_term(v)]
        return any(atom(k, value) == "q.netloc" for k in parts) and temp_dir(v) and joined(v, value)
    if want == ("random",):
        unique = any(k.k in ("call", "new", "op") and tail(str(k.a[0])) in ("uuid4", "uuid1", "token_hex", "mktemp", "token_urlsafe") for k in walk_term(v))
        return unique and (temp_dir(v) or any(is_named(k, "mktemp") for k in walk_term(v)))
    return False


def joined(v: T, value: T) -> bool:
    """The directory for temporary files and a name, joined as a path."""
    v = plain(v)
    if is_named(v, "join") or is_op(v, "div", "truediv", "os.path.join"):
        rest = [a for a in v.a[1:] if isinstance(a, T)]
        if v.k == "call":
            rest = list(v.a[2])
        return len(rest) == 2 and temp_dir(rest[0]) and atom(rest[1], value) == "q.netloc"
    if is_named(v, "joinpath"):
        return True
    if v.k == "cat":
        parts = list(v.a)
        return len(parts) == 3 and temp_dir(parts[0]) and const(parts[1]) == "/" and atom(parts[2], value) == "q.netloc"
    return is_named(v, "join", )


def parser(chk: Check) -> int:
    f = chk.program.func(PARSE)
    value = mk("param", f.params[0].arg)
    paths = chk.walk(f, raise_mode="none")
    n = 0
    for case, want in outcomes(value):
        text = " ".join(f"{k}={v!r}" for k, v in case.items() if v not in ("", None) and not k.startswith(("raw", "netloc?", "path?")))
        fit = [p for p in paths if all(fact_in(case, k, value) in (None, v) for k, v in p.pc.items())]
        if not fit:
            raise AnalysisError(f"{f.qual}: no path is known for an address with {text}")
        for p in fit:
            n += 1
            if p.flow == "raise":
                chk.must(want == ("raise",), "documented-forms", f, f"an address with {text} is refused", p)
                chk.must(tail(p.exc or "") in ("ValueError",), "documented-forms", f, f"an address that is wrong is reported as {p.exc}", p)
            else:
                chk.must(want != ("raise",), "others-refused", f, f"an address with {text} is not refused", p)
                if want != ("raise",):
                    chk.must(result_is(p.value, want, case, value), "documented-meaning", f, f"an address with {text} means {show(p.value)[:110]}", p)
    return n


def reported(chk: Check) -> int:
    """The address a connection reports is in the format that is read."""
    f = chk.program.func(f"{QUEUE}.address")
    n = 0
    for fam in ("AF_UNIX", "AF_INET6", "AF_INET"):
        fit = []
        for p in returns(chk.walk(f, raise_mode="none")):
            ok = True
            for k, v in p.pc.items():
                q = plain(k)
                if is_op(q, "eq", "is") and any(attr_path(a)[1][-1:] == ["family"] for a in q.a[1:]):
                    names = [purpose(a) for a in q.a[1:] if attr_path(a)[1][-1:] != ["family"]]
                    ok = ok and (names == [fam]) == v
                elif is_op(q, "in") and attr_path(q.a[1])[1][-1:] == ["family"]:
                    ok = ok and (fam in [purpose(a) for a in q.a[2].a if isinstance(a, T)]) == v
            if ok:
                fit.append(p)
        if not fit:
            raise AnalysisError(f"{f.qual}: no path is known for {fam}")
        for p in fit:
            n += 1
            chk.must(format_of(p, p.value, fam), "reported-address", f, f"the address of {fam} is reported as {show(p.value)[:110]}", p)
    return n


def sockname(x) -> bool:
    x = plain(x)
    while is_op(x, "str", "fspath"):
        x = plain(x.a[1])
    return is_named(x, "getsockname") or x.k == "call" and tail(str(x.a[0])) == "getsockname"


def part(x, i: int) -> bool:
    x = plain(x)
    while is_op(x, "str"):
        x = plain(x.a[1])
    if x.k != "item" or const(x.a[1]) != i:
        return False
    base = plain(x.a[0])
    if base.k == "slice" and const(base.a[1]) in (0, None) and isinstance(const(base.a[2]), int) and const(base.a[2]) > i:
        base = base.a[0]
    return sockname(base)


def format_of(p: Path, v, fam: str) -> bool:
    v = plain(v)
    xs = list(v.a) if v.k == "cat" else []
    if fam == "AF_UNIX":
        return len(xs) == 2 and const(xs[0]) in ("uds://", "uds:") and sockname(xs[1])
    if fam == "AF_INET6":
        return len(xs) == 4 and const(xs[0]) == "tcp://[" and part(xs[1], 0) and const(xs[2]) == "]:" and part(xs[3], 1)
    return len(xs) == 4 and const(xs[0]) == "tcp://" and part(xs[1], 0) and const(xs[2]) == ":" and part(xs[3], 1)


def both_parse(chk: Check) -> int:
    """Both ends understand the address with the parser and use what it returns."""
    n = 0
    f = f"{CLIENTQ}.__init__"
    addr = None
    for p in returns(slim(chk, f, names=("parse_addr_string",), attrs=("_address",), kinds=(), opaque=[PARSE])):
        for e in [e for e in p.events if e.kind == "call" and e.callee == PARSE]:
            n += 1
            chk.must(same(e.arg(0, "value"), mk("param", "address")), "parsed-address", e, "another address than the given one is connected to", p)
            kept = [s for s in p.events if s.kind == "setattr" and s.recv is SELF and same(s.args[0], e.res)]
            chk.must(kept, "parsed-address", e, "another address than the given one is connected to", p)
            addr = kept[-1].callee if kept else addr
    if addr is not None:
        a = mk("attr", SELF, addr)
        for p in returns(slim(chk, f"{CLIENTQ}.start", names=("connect", "getaddrinfo"), kinds=(), opaque=[f"{TOKEN}.{m}" for m in ("accept", "connect", "do_handshake", "recv_into", "sendall")] + [f"{QUEUE}.start"])):
            for e in [e for e in p.events if e.kind == "call" and e.callee == f"{TOKEN}.connect"]:
                n += 1
                to = plain(e.arg(1, "addr"))
                if same(to, a):
                    chk.must(isa_of(p.pc, a, "str") is True, "parsed-address", e, "a path is connected to as a host", p)
                    continue
                looked = [k for k in walk_term(to) if is_named(k, "getaddrinfo")]
                ok = looked and all(uses_pair(k, a) for k in looked)
                chk.must(ok, "parsed-address", e, f"another address than the given one is connected to: {show(to)[:80]}", p)
    for p in returns(slim(chk, f"{SERVERQ}.__init__", names=("parse_addr_string", "create_uds_with_mask", "create_server", "bind"), kinds=(), opaque=[PARSE])):
        res = [e.res for e in p.events if e.kind == "call" and e.callee == PARSE]
        for e in p.events:
            if e.kind == "call" and (e.callee.endswith("socket.bind") or e.callee == "socket.create_server"):
                n += 1
                x = e.arg(0, "address")
                ok = res and isinstance(x, T) and (same(x, res[-1]) or plain(x).k == "tuple" and len(plain(x).a) == 2 and all(same(i, mk("item", plain(res[-1]), mk("const", j))) for j, i in enumerate(plain(x).a)))
                chk.must(ok, "parsed-address", e, f"another address than the given one is bound: {show(x)[:80] if isinstance(x, T) else None}", p)
    return n


def uses_pair(k: T, a: T) -> bool:
    pos, named = arguments(k)
    host = pos[0] if pos else named.get("host")
    port = pos[1] if len(pos) > 1 else named.get("port")
    part0 = plain(host) if isinstance(host, T) else None
    if part0 is not None and is_op(part0, "or", "orelse"):
        part0 = plain(part0.a[1])
    return part0 is not None and same(part0, mk("item", a, mk("const", 0))) and isinstance(port, T) and same(port, mk("item", a, mk("const", 1)))


def c43(chk: Check) -> None:
    """A decision table over the parts of an address against every path of the parser, and the format that is reported."""
    chk.floor(parser(chk), 20, "kinds of addresses")
    chk.floor(reported(chk), 3, "families")
    chk.floor(both_parse(chk), 4, "uses of an address")
