"""Launching a playbook from the command line: C32 and C33."""

from __future__ import annotations

import ast
import dataclasses
import os
import re

from ..program import AnalysisError, FuncInfo
from ..report import Check
from ._util import *

MAIN = f"{PKG}.__main__.main"
PARSE = f"{PKG}.__main__.parse_args"
START_DAP = f"{PKG}._debug_adapter.start_dap"
SERVER = f"{PKG}._debug_adapter.DAServer"
ON_START = f"{CALLBACK}.CallbackModule.v2_playbook_on_start"
CONFIGURE = f"{PKG}._logging.configure_file_logging"
DEBUGGER = f"{PKG}._debuggee.AnsibleDebugger"
TLS_SERVER = f"{PKG}._tls.create_server_tls_context"
REGISTER = "ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints.register_play_breakpoints"
LEVELS = ("info", "debug", "warning", "error")
ACTIONS = ("connect", "dap", "listen")

# The options and what they take: the interface that the help of the command line describes.
LOG = {"--log-file": "path", "--log-level": "level"}
LAUNCH = {"--no-wait": "flag", "playbook_args": "rest"}
OPTIONS = {
    "connect": {"--addr": "needed", **LOG, **LAUNCH},
    "dap": {**LOG, "--temp-dir": "path"},
    "listen": {
        "--addr": "address",
        **LOG,
        **LAUNCH,
        "--wrap-tls": "flag",
        "--tls-cert": "path",
        "--tls-key": "path",
        "--tls-key-pass": "secret",
        "--tls-client-ca": "path",
    },
}


def cv(x) -> object:
    """The value of a constant."""
    x = plain(x) if isinstance(x, T) else x
    return x.a[0] if isinstance(x, T) and x.k == "const" else None


def called(x) -> tuple[str, list, dict] | None:
    """The function, the arguments and the named arguments of the call a term stands for."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    if x.k == "call":
        pos = ([x.a[1]] if isinstance(x.a[1], T) else []) + list(x.a[2])
        return tail(x.a[0]), pos, dict(x.a[3])
    if x.k == "op":
        return tail(x.a[0]), [i for i in x.a[1:] if isinstance(i, T)], {}
    return None


# --- the command line ----------------------------------------------------------
@dataclasses.dataclass
class Option:
    flag: str
    dest: str
    ev: Ev

    def kw(self, name: str):
        return self.ev.skw.get(name)


def options_of(chk: Check, p: Path) -> dict[str, dict[str, Option]]:
    """The options each action has on a path through the function that declares them."""
    parsers: dict[T, str] = {}
    groups: dict[T, T] = {}
    parents: dict[T, list[T]] = {}
    own: dict[T, list[Option]] = {}

    def base(x: T) -> T:
        x = unver(x)
        return base(groups[x]) if x in groups else x

    for e in p.events:
        if e.kind not in ("call", "new") or not isinstance(e.res, T):
            continue
        if e.name == "add_parser":
            parsers[unver(e.res)] = str(cv(e.arg(0, "name")))
        elif e.name in ("add_argument_group", "add_mutually_exclusive_group") and e.recv is not None:
            groups[unver(e.res)] = unver(e.recv)
        if e.name in ("add_parser", "ArgumentParser"):
            more = e.skw.get("parents")
            parents[unver(e.res)] = [unver(x) for x in more.fields] if isinstance(more, Obj) else []
        if e.name != "add_argument" or e.recv is None:
            continue
        flags = [str(cv(a)) for a in e.args]
        if not flags:
            raise AnalysisError("anchor vanished: an option without a name")
        flag = next((f for f in flags if f.startswith("--")), flags[0])
        dest = cv(e.kwargs.get("dest")) if "dest" in e.kwargs else flag.lstrip("-").replace("-", "_")
        own.setdefault(base(e.recv), []).append(Option(flag, str(dest), e))

    def every(x: T, depth: int = 0) -> list[Option]:
        return [o for y in parents.get(x, []) if depth < 5 for o in every(y, depth + 1)] + own.get(x, [])

    return {name: {o.flag: o for o in every(x)} for x, name in parsers.items()}


def expanding(chk: Check, o: Option) -> str | None:
    """What is wrong with how the text of a path option becomes a path."""
    f = o.kw("type")
    q = f.a[0] if isinstance(f, T) and f.k in ("func", "glob") and isinstance(f.a[0], str) else None
    fn = chk.program.find_func(q) if q else None
    if fn is None:
        return None if isinstance(f, T) and f.k in ("lambda", "closure") else "is not expanded"
    arg = fn.params[0].arg
    for p in returns(chk.walk(fn, raise_mode="none")):
        got = expansions(p.value)
        if got is None or not (isinstance(got[0], T) and got[0].k == "param" and got[0].a[0] == arg):
            return "becomes something else than the path that was given"
        if not {"expanduser", "expandvars"} <= got[1]:
            return "is not expanded"
    return None


PATHS = {"Path", "PurePath", "PosixPath", "expanduser", "expandvars", "absolute", "resolve", "abspath", "str", "fspath", "realpath", "as_posix", "normpath", "__fspath__"}


def expansions(x) -> tuple[T, set[str]] | None:
    """What a path is made from and the conversions that were applied."""
    done: set[str] = set()
    for _ in range(12):
        x = plain(x) if isinstance(x, T) else x
        c = called(x)
        if c is None or c[0] not in PATHS:
            return (x, done) if isinstance(x, T) else None
        if len(c[1]) != 1:
            return None
        done.add(c[0])
        x = c[1][0]
    return None


def check_option(chk: Check, action: str, o: Option, kind: str) -> None:
    what = f"the option {o.flag} of {action}"
    act = cv(o.kw("action")) if o.kw("action") is not None else "store"
    rule = "C32.option"
    if kind == "flag":
        chk.must(act == "store_true" and cv(o.kw("default")) in (None, False), rule, o.ev, f"{what} is not a flag that is off unless it is given")
        return
    chk.must(act == "store", rule, o.ev, f"{what} does not keep its value")
    if kind == "rest":
        nargs = o.kw("nargs")
        rest = isinstance(nargs, T) and (nargs.k == "glob" and tail(nargs.a[0]) == "REMAINDER" or cv(nargs) == "...")
        chk.must(rest, rule, o.ev, f"{what} does not take all that follows, options included")
        chk.must(o.kw("type") is None or is_str(o.kw("type")), rule, o.ev, f"{what} changes the arguments")
        return
    chk.must(o.kw("nargs") is None, rule, o.ev, f"{what} does not take one value")
    default = o.kw("default")
    if kind == "path":
        chk.must(default is None or cv(default) is None and is_none(default), rule, o.ev, f"{what} is set when it is not given")
        wrong = expanding(chk, o)
        chk.must(wrong is None, "C32.path", o.ev, f"the path given for {what} {wrong}")
        return
    chk.must(o.kw("type") is None or is_str(o.kw("type")), rule, o.ev, f"{what} changes its value")
    if kind == "level":
        got = o.kw("choices")
        names = {cv(x) for x in got.fields} if isinstance(got, Obj) else None
        if isinstance(got, T) and got.k == "tuple":
            names = {cv(x) for x in got.a}
        chk.must(names is None and got is None or names is not None and names >= set(LEVELS), rule, o.ev, f"{what} refuses a level")
        chk.must(cv(default) == "info", rule, o.ev, f"{what} is not info by default")
    elif kind == "needed":
        chk.must(cv(o.kw("required")) is True, rule, o.ev, f"{what} is not required")
    elif kind == "address":
        chk.must(cv(default) == "uds://", rule, o.ev, f"{what} is not a new Unix socket by default")
    elif kind == "secret":
        chk.must(env_value(default) == "ANSIBUG_TLS_KEY_PASS", rule, o.ev, f"{what} is not taken from ANSIBUG_TLS_KEY_PASS by default")


def is_none(x) -> bool:
    return isinstance(x, T) and x.k == "const" and x.a[0] is None


def is_str(x) -> bool:
    return isinstance(x, T) and x.k in ("glob", "cls") and tail(str(x.a[0])) == "str"


def environ(x) -> bool:
    x = plain(x) if isinstance(x, T) else x
    return isinstance(x, T) and x.k == "glob" and x.a[0] in ("os.environ", "environ")


def env_value(x) -> str | None:
    """The variable of the environment a value comes from; nothing else if that is not set."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    if x.k == "item" and environ(x.a[0]):
        return cv(x.a[1])
    if x.k == "call" and (x.a[0] in ("os.environ.get", "os.getenv") or tail(x.a[0]) == "get" and environ(x.a[1])):
        rest = x.a[2][1:] + tuple(v for _, v in x.a[3])
        return cv(x.a[2][0]) if all(is_none(v) or cv(v) == "" for v in rest) else None
    if is_op(x, "get") and environ(x.a[1]):
        return cv(x.a[2]) if all(is_none(v) or cv(v) == "" for v in x.a[3:] if isinstance(v, T)) else None
    return None


# --- what is run ---------------------------------------------------------------
def given(x) -> str | None:
    """The name of the option a value is the value of."""
    x = plain(x) if isinstance(x, T) else x
    if isinstance(x, T) and x.k == "attr" and unver(x.a[0]).k == "call" and unver(x.a[0]).a[0] == PARSE:
        return x.a[1]
    c = called(x)
    if c and c[0] == "getattr" and len(c[1]) >= 2 and unver(c[1][0]).k == "call" and unver(c[1][0]).a[0] == PARSE:
        return cv(c[1][1])
    return None


def holds(k, action: str) -> bool | None:
    """Whether a condition holds for an action."""
    k = plain(k) if isinstance(k, T) else k
    if is_op(k, "not"):
        r = holds(k.a[1], action)
        return None if r is None else not r
    if is_op(k, "and", "or"):
        parts = [holds(x, action) for x in k.a[1:]]
        if is_op(k, "or"):
            return True if True in parts else None if None in parts else False
        return False if False in parts else None if None in parts else True
    if is_op(k, "eq"):
        for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
            if given(a) == "action" and isinstance(cv(b), str):
                return cv(b) == action
    return None


def actions_of(p: Path, wanted: tuple[str, ...] = ACTIONS) -> list[str]:
    return [a for a in wanted if all(holds(k, a) in (None, v) for k, v in p.pc.items())]


def is_given(p: Path, value: T) -> bool | None:
    """Whether an option that need not be there was given, as far as a path knows."""
    t = truth_of(p.pc, value)
    if t is not None:
        return t
    n = none_of(p.pc, value)
    return None if n is None else not n


class Launch:
    """The program that is run at the end of a path."""

    def __init__(self, p: Path, e: Ev) -> None:
        self.p = p
        self.e = e
        names = {"execve": ("path", "argv", "env"), "execvpe": ("file", "args", "env")}[e.name]
        self.argv = e.sarg(1, names[1])
        self.env = e.sarg(2, names[2])

    def settings(self) -> dict[str, T] | None:
        """What the environment sets, the last one wins; None if that is not known."""
        if not isinstance(self.env, Obj) or self.env.kind != "dict":
            return None
        res: dict[str, T] = {}
        for k, v in self.env.fields:
            if isinstance(k, T) and k.k == "rest":
                if not environ(k.a[0]):
                    return None
                res.clear()  # the environment of the caller wins over what comes before it
            elif isinstance(cv(k), str):
                res[str(cv(k))] = v
            else:
                return None
        return res


def launches(chk: Check) -> list[Path]:
    quiet = [PARSE, START_DAP]
    return returns(chk.walk(MAIN, raise_mode="none", opaque=quiet, cap=20000))


def launch_of(p: Path) -> Launch | None:
    es = [e for e in p.events if e.kind == "call" and e.callee in ("os.execve", "os.execvpe")]
    return Launch(p, es[0]) if len(es) == 1 else None


def run_arguments(chk: Check, l: Launch, dest: str) -> bool:
    """The program is ansible-playbook and is given the arguments of the command line and no other."""
    argv = l.argv
    rule = "C32.arguments"
    if isinstance(argv, T) and argv.k == "tuple":
        items = list(argv.a)
    elif isinstance(argv, Obj) and argv.kind == "list" and not argv.open:
        items = list(argv.fields)
    else:
        return chk.must(False, rule, l.e, "the arguments of the playbook are not passed on", l.p)
    head, last = items[:-1], items[-1]
    ok = isinstance(last, T) and last.k == "star" and given(last.a[0]) == dest
    chk.must(ok, rule, l.e, "the arguments of the playbook are not passed on as they were given", l.p)
    names = [cv(x) for x in head[1:]]
    tool = names in (["-m", "ansible", "playbook"], ["-m", "ansible.cli.playbook"]) or not names and "playbook" in str(cv(head[0]))
    return chk.must(tool, rule, l.e, "something else than the playbook is run, or with further arguments", l.p)


YES, NO = {"true", "yes", "on", "1", "y", "t"}, {"false", "no", "off", "0", "n", "f"}


def as_flag(p: Path, v, option: str) -> bool:
    """A text that Ansible reads as the value of a flag."""
    v = plain(v)
    text = cv(v)
    if isinstance(text, str):
        for k, known in p.pc.items():
            if is_op(k, "truthy") and given(k.a[1]) == option:
                return text.lower() in (YES if known else NO)
        return False
    for _ in range(6):
        c = called(v)
        if c and c[0] in ("str", "lower", "upper", "title", "capitalize", "repr", "int", "bool", "dumps") and len(c[1]) == 1:
            v = plain(c[1][0])
            continue
        if v.k == "cat" and len(v.a) == 1:
            v = plain(v.a[0])
            continue
        break
    if is_op(v, "ite", "ifexp") and given(v.a[1]) == option:
        return str(cv(v.a[2])).lower() in YES and str(cv(v.a[3])).lower() in NO
    return given(v) == option


def as_text(v, option: str) -> bool:
    """The text of a path, absolute or not, or a text itself."""
    got = expansions(v)
    return got is not None and given(got[0]) == option


def sources(v) -> set[str]:
    """The options a value depends on."""
    return {g for x in walk_term(v) if (g := given(x)) is not None} if isinstance(v, T) else set()


def flags_carried(ls: list[Launch], dests: dict[str, str]) -> dict[str, str]:
    """The variables that say whether a flag is given, on all paths."""
    envs = [(l.p, l.settings() or {}) for l in ls]
    res: dict[str, str] = {}
    for flag, dest in dests.items():
        names = [n for n in (envs[0][1] if envs else {}) if all(n in env and as_flag(p, env[n], dest) for p, env in envs)]
        if names:
            res[flag] = names[0]
    return res


def carried(chk: Check, l: Launch, action: str, opts: dict[str, Option], flags: dict[str, str]) -> dict[str, str]:
    """The variable that carries each option: {option: variable}."""
    env = l.settings()
    if env is None:
        chk.must(False, "C32.passed-on", l.e, "the options are not passed on in the environment", l.p)
        return {}
    p = l.p
    res: dict[str, str] = dict(flags)
    kinds = OPTIONS[action]
    for name, value in env.items():
        for flag in kinds:
            if flag not in flags and flag in opts and opts[flag].dest in sources(value) and kinds[flag] != "rest":
                ok = as_flag(p, value, opts[flag].dest) if kinds[flag] == "flag" else as_text(value, opts[flag].dest) if kinds[flag] == "path" else given(value) == opts[flag].dest
                chk.must(ok, "C32.value", l.e, f"{flag} does not reach {name} as it was given", p)
                res[flag] = name
        if cv(value) == action:
            res["mode"] = name
    return res


def value_term(p: Path, dest: str) -> T | None:
    """The value of an option, wherever it is used on a path."""
    for e in p.events:
        for a in [*e.args, *e.kwargs.values(), *([e.recv] if e.recv is not None else [])]:
            for x in walk_term(a):
                if given(x) == dest:
                    return plain(x)
    for k in p.pc:
        for x in walk_term(k):
            if given(x) == dest:
                return plain(x)
    return None


# --- what the plugin reads -----------------------------------------------------
def documented(chk: Check) -> dict[str, dict]:
    """The options of the callback plugin: {option: description}."""
    f = chk.program.func(ON_START)
    for st in f.module.tree.body:
        names = [t.id for t in getattr(st, "targets", [getattr(st, "target", None)]) if isinstance(t, ast.Name)]
        if "DOCUMENTATION" in names and isinstance(getattr(st, "value", None), ast.Constant):
            import yaml

            try:
                doc = yaml.safe_load(st.value.value)
            except yaml.YAMLError:
                break
            opts = doc.get("options") if isinstance(doc, dict) else None
            if isinstance(opts, dict):
                return opts
    raise AnalysisError("anchor vanished: the options of the callback plugin")


def read_from(opts: dict[str, dict], env: str) -> str | None:
    """The option of the plugin a variable of the environment sets."""
    names = [n for n, o in opts.items() if any(isinstance(e, dict) and e.get("name") == env for e in o.get("env") or [])]
    return names[0] if len(names) == 1 else None


def option_of(x) -> str | None:
    """The option of the plugin a value is."""
    c = called(x)
    if c and c[0] == "get_option" and c[1]:
        return cv(c[1][-1])
    return None


def option_true(p: Path, name: str | None) -> bool | None:
    for k, v in p.pc.items():
        if is_op(k, "truthy", "isnone") and option_of(k.a[1]) == name:
            return v if k.a[0] == "truthy" else not v
    return None


def arguments(e: Ev, f: FuncInfo) -> dict[str, T]:
    """The arguments of a call of a function of the program by parameter."""
    names = [a.arg for a in f.params]
    if f.cls is not None and not f.is_static:
        names = names[1:]
    res = dict(zip(names, e.args))
    res.update(e.kwargs)
    return res


def default_of(f: FuncInfo, name: str) -> T | None:
    """The constant a parameter is set to by default."""
    a = f.node.args
    pairs = [*zip([x.arg for x in [*a.posonlyargs, *a.args]][::-1], a.defaults[::-1]), *((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None)]
    d = dict(pairs).get(name)
    return mk("const", d.value) if isinstance(d, ast.Constant) else None


TYPES = {"path": ("path", "str", "string", "tmp", None), "flag": ("bool", "boolean"), "secret": ("str", "string", None), "level": ("str", "string", None), "needed": ("str", "string", None), "address": ("str", "string", None)}


def plugin_types(chk: Check, opts: dict[str, dict], names: dict[str, dict[str, str]]) -> dict[str, dict[str, str]]:
    """The option of the plugin of each option of the command line, by action."""
    res: dict[str, dict[str, str]] = {}
    for action, carriers in names.items():
        for flag, env in carriers.items():
            o = read_from(opts, env)
            if not chk.must(o is not None, "C32.read", ON_START, f"the plugin does not read {env}, which is what {flag} of {action} sets"):
                continue
            res.setdefault(action, {})[flag] = o
            d = opts[o]
            if flag == "mode":
                ok = action in (d.get("choices") or [action])
            else:
                kind = OPTIONS[action][flag]
                ok = d.get("type") in TYPES[kind] and (kind != "level" or set(d.get("choices") or LEVELS) >= set(LEVELS))
            chk.must(ok, "C32.type", ON_START, f"the plugin does not take what {flag} of {action} sets {env} to")
    return res


def plugin_paths(chk: Check) -> list[Path]:
    quiet = [f"{DEBUGGER}.start", f"{DEBUGGER}.wait_for_config_done", TLS_SERVER, CONFIGURE, REGISTER]
    return returns(chk.walk(ON_START, raise_mode="none", opaque=quiet, apart=True, cap=20000))


def plugin(chk: Check, by_action: dict[str, dict[str, str]]) -> int:
    """What the plugin does with its options."""
    listen, connect = by_action.get("listen", {}), by_action.get("connect", {})
    start = chk.program.func(f"{DEBUGGER}.start")
    paths = plugin_paths(chk)
    rule = "C32.used"
    for p in paths:
        starts = calls(p.events, f"{DEBUGGER}.start")
        if not chk.must(len(starts) == 1, rule, p, "the debugger is not started", p):
            continue
        a = arguments(starts[0], start)
        modes = [m for m in ("listen", "connect") if mode_is(p, by_action, m) is not False]
        for m in modes:
            mine = by_action.get(m, {})
            for flag, name in (("--addr", "addr"), ("mode", "mode")):
                v = a.get(name)
                ok = v is not None and (option_of(v) == mine.get(flag) or name == "mode" and cv(v) == m)
                chk.must(ok, rule, starts[0], f"the debugger is not started with the {'address' if name == 'addr' else 'mode'} of the command line", p)
            waits = calls(p.events, f"{DEBUGGER}.wait_for_config_done")
            free = option_true(p, mine.get("--no-wait"))
            chk.must(free is not None and (not waits) is free, rule, starts[0], "the playbook waits for the client with --no-wait or does not wait without it", p)
            for w in waits:
                chk.must(p.index(w) > p.index(starts[0]), rule, w, "the playbook waits for a client before there can be one", p)
                f = chk.program.func(f"{DEBUGGER}.wait_for_config_done")
                limits = list(arguments(w, f).values()) or [default_of(f, a.arg) for a in f.params[1:]]
                chk.must(all(is_none(x) for x in limits), rule, w, "the playbook does not wait until the client is ready", p)
            logging(chk, p, mine, starts[0])
            tls(chk, p, m, mine, a.get("ssl_context"), starts[0])
    return len(paths)


def mode_is(p: Path, by_action: dict[str, dict[str, str]], mode: str) -> bool | None:
    opt = by_action.get(mode, {}).get("mode")
    for k, v in p.pc.items():
        if is_op(k, "eq"):
            for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if option_of(x) == opt and isinstance(cv(y), str):
                    if cv(y) == mode:
                        return v
                    if v:
                        return False
    return None


def logging(chk: Check, p: Path, mine: dict[str, str], at: Ev) -> None:
    made = calls(p.events, CONFIGURE)
    on = option_true(p, mine.get("--log-file"))
    ok = on is not None and len(made) == int(on)
    if not chk.must(ok, "C32.used", at, "the log file of the command line is not used", p):
        return
    for e in made:
        a = arguments(e, chk.program.func(CONFIGURE))
        v = list(a.values())
        file, level = a.get("file", v[0]), a.get("level")
        good = option_of(expansions(file)[0]) == mine.get("--log-file") and level is not None and option_of(level) == mine.get("--log-level")
        chk.must(good, "C32.used", e, "another log file or level is used", p)
        chk.must(p.index(e) < p.index(at), "C32.used", e, "the log file is set up after the debugger is started", p)


def tls(chk: Check, p: Path, mode: str, mine: dict[str, str], ctx, at: Ev) -> None:
    made = calls(p.events, TLS_SERVER)
    rule = "C32.used"
    if mode == "connect":
        return
    on = option_true(p, mine.get("--wrap-tls"))
    if mode_is(p, {"listen": mine}, "listen") is None and not made:
        on = on or False
    ok = on is not None and len(made) == int(on) and (not on and (ctx is None or is_none(plain(ctx))) or on and ctx is not None and same(plain(ctx), made[0].res))
    if not chk.must(ok, rule, at, "TLS is used without --wrap-tls or not used with it", p):
        return
    want = {"certfile": "--tls-cert", "keyfile": "--tls-key", "password": "--tls-key-pass", "ca_trust": "--tls-client-ca"}
    for e in made:
        a = arguments(e, chk.program.func(TLS_SERVER))
        for name, flag in want.items():
            v = a.get(name)
            good = v is not None and option_of(v) is not None and option_of(v) == mine.get(flag)
            chk.must(good, rule, e, f"the listener does not use the value of {flag}", p)


# --- the components ------------------------------------------------------------
NUMBERS = {"debug": 10, "info": 20, "warning": 30, "error": 40}


def level_of(x) -> str | None:
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    v = cv(x)
    if isinstance(v, int):
        return next((n for n, i in NUMBERS.items() if i == v), None)
    if isinstance(v, str):
        return v.lower() if v.isupper() else None
    if x.k == "glob" and x.a[0].startswith("logging."):
        return tail(x.a[0]).lower()
    c = called(x)
    if c and c[0] == "upper" and isinstance(cv(c[1][0]), str):
        return str(cv(c[1][0])).lower()
    if c and c[0] in ("getattr", "getLevelName") and c[1]:
        y = plain(c[1][1] if c[0] == "getattr" and len(c[1]) > 1 else c[1][-1])
        return level_of(y)
    if x.k == "item":
        return level_of(x.a[1])
    return None


def log_levels(chk: Check) -> int:
    """The log file gets the messages of the level and no lower one."""
    f = chk.program.func(CONFIGURE)
    names = [a.arg for a in f.params]
    n = 0
    for level in LEVELS:
        for p in chk.walk(f, raise_mode="none", args={names[1]: mk("const", level)}):
            n += 1
            if not chk.must(p.flow == "ret", "C32.log", p, f"the log level {level} is refused", p):
                continue
            files = [e for e in p.events if e.kind == "new" and e.callee.startswith("logging.") and e.callee.endswith("FileHandler")]
            files = [e for e in files if isinstance(e.arg(0, "filename"), T) and expansions(e.arg(0, "filename"))[0] is mk("param", names[0])]
            if not chk.must(len(files) == 1, "C32.log", p, "the messages are not written to the log file", p):
                continue
            h = files[0].res
            adds = [e for e in calls(p.events, "addHandler") if same(e.arg(0, "hdlr"), h)]
            ok = len(adds) == 1 and ours(adds[0].recv) 
            chk.must(ok, "C32.log", files[0], "the log file does not get the messages of ansibug", p)
            for e in calls(p.events, "setLevel"):
                if same(e.recv, h) or ours(e.recv):
                    chk.must(level_of(e.arg(0, "level")) == level, "C32.log", e, f"another level than {level} is used", p)
            chk.must(any(ours(e.recv) for e in calls(p.events, "setLevel")), "C32.log", p, "the level is not set", p)
    return n


def ours(x) -> bool:
    c = called(x)
    return c is not None and c[0] == "getLogger" and bool(c[1]) and cv(c[1][-1]) == "ansibug"


def adapter_options(chk: Check, opts: dict[str, Option]) -> int:
    """The options of the adapter process."""
    f = chk.program.func(START_DAP)
    names = [a.arg for a in f.params]
    quiet = [PARSE, CONFIGURE, f"{SERVER}.start", f"{SERVER}.__enter__", f"{SERVER}.__exit__"]
    paths = returns(chk.walk(MAIN, raise_mode="none", opaque=quiet + [f"{PKG}._exec_playbook.exec_playbook_connect", f"{PKG}._exec_playbook.exec_playbook_listen"], lossy=True))
    n = 0
    dest = {flag: o.dest for flag, o in opts.items()}
    held_in: set[str] = set()
    for p in paths:
        if "dap" not in actions_of(p):
            continue
        n += 1
        ran = calls(p.events, f"{SERVER}.start")
        if not chk.must(len(ran) == 1, "C32.adapter", p, "the debug adapter is not run", p):
            continue
        v = value_term(p, dest["--log-file"])
        on = v is not None and is_given(p, v)
        made = calls(p.events, CONFIGURE)
        chk.must(v is not None and len(made) == int(bool(on)), "C32.adapter", p, "the log file of the adapter is not used", p)
        for e in made:
            a = arguments(e, chk.program.func(CONFIGURE))
            file, level = list(a.values())[0], a.get("level")
            ok = as_text(file, dest["--log-file"]) and given(level) == dest["--log-level"]
            chk.must(ok and p.index(e) < p.index(ran[0]), "C32.adapter", e, "the log file or level of the adapter is not the one of the command line", p)
        mine = {e.callee for e in p.events if e.kind == "setattr" and given(e.args[0]) == dest["--temp-dir"]}
        chk.must(mine, "C32.adapter", p, "the directory of --temp-dir is not kept", p)
        held_in |= mine
    scripts = 0
    for g, node in sites(chk.program, [START_DAP.rsplit(".", 1)[0]], is_call_of("mkstemp", "mkdtemp", "NamedTemporaryFile", "TemporaryDirectory", "mktemp")):
        scripts += 1
        where = {k.arg: k.value for k in node.keywords}.get("dir")
        if where is None and node.func and len(node.args) > 2:
            where = node.args[2]
        ok = isinstance(where, ast.Attribute) and where.attr in held_in
        if isinstance(where, ast.Name):
            srcs = [s.value for s in ast.walk(g.node) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == where.id for t in s.targets)]
            ok = any(isinstance(x, ast.Attribute) and x.attr in held_in for s in srcs for x in ast.walk(s)) or g.qual != START_DAP and not srcs and where.id in [a.arg for a in g.params]
        chk.must(ok, "C32.adapter", g, "the launch script is not created in the directory of --temp-dir")
    chk.floor(scripts, 1, "launch scripts")
    return n


def connection(chk: Check) -> int:
    """The debuggee connects or listens, on the address it is started with."""
    quiet = [f"{MPQ}.ClientMPQueue.__init__", f"{MPQ}.ServerMPQueue.__init__", f"{MPQ}.ClientMPQueue.address", f"{MPQ}.ServerMPQueue.address", f"{MPQ}.MPQueue.address"]
    n = 0
    for p in chk.walk(f"{DEBUGGER}.start", raise_mode="none", opaque=quiet, lossy=True):
        mode = mk("param", "mode")
        for m, cls in (("connect", "ClientMPQueue"), ("listen", "ServerMPQueue")):
            possible = all(v == (cv(o) == m) for k, v in p.pc.items() if is_op(k, "eq") for x, o in ((k.a[1], k.a[2]), (k.a[2], k.a[1])) if x is mode and isinstance(cv(o), str))
            if not possible:
                continue
            n += 1
            made = [e for e in p.events if e.kind == "new" and tail(e.callee) in ("ClientMPQueue", "ServerMPQueue")]
            ok = [tail(e.callee) for e in made] == [cls]
            if not chk.must(ok, "C32.connection", p, f"the debuggee does not {m} when it is told to", p):
                continue
            f = chk.program.find_func(f"{MPQ}.{cls}.__init__")
            a = {**(arguments(made[0], f) if f else {}), **made[0].kwargs}
            ok = plain(a["address"]) is mk("param", "addr") if "address" in a else made[0].args[:1] == (mk("param", "addr"),)
            chk.must(ok, "C32.connection", made[0], "the debuggee uses another address", p)
            ctx = a.get("ssl_context")
            chk.must(ctx is not None and plain(ctx) is mk("param", "ssl_context"), "C32.connection", made[0], "the debuggee does not use TLS when it is told to", p)
    return n


# --- C32 -----------------------------------------------------------------------
def c32(chk: Check) -> None:
    """Every option, from the text of the command line to the component that it sets up."""
    found: dict[str, dict[str, Option]] = {}
    n = 0
    for p in returns(chk.walk(PARSE, raise_mode="none", lossy=True)):
        found = options_of(chk, p)
        for action, kinds in OPTIONS.items():
            if not chk.must(action in found, "C32.option", p, f"there is no action {action}", p):
                return
            for flag, kind in kinds.items():
                o = found[action].get(flag)
                if not chk.must(o is not None, "C32.option", p, f"{action} has no option {flag}", p):
                    return
                n += 1
                check_option(chk, action, o, kind)
    chk.floor(n, 20, "options of the command line")

    names: dict[str, dict[str, str]] = {"listen": {}, "connect": {}}
    runs = 0
    paths = launches(chk)
    flags = {}
    for action in ("connect", "listen"):
        mine = [l for p in paths if actions_of(p) == [action] and (l := launch_of(p)) is not None]
        flags[action] = flags_carried(mine, {f: o.dest for f, o in found[action].items() if OPTIONS[action].get(f) == "flag"})
    for p in paths:
        for action in actions_of(p, ("connect", "listen")):
            l = launch_of(p)
            if not chk.must(l is not None, "C32.arguments", p, f"{action} does not run the playbook", p):
                continue
            if actions_of(p) != [action] and "dap" in actions_of(p):
                continue
            runs += 1
            opts = found[action]
            run_arguments(chk, l, opts["playbook_args"].dest)
            got = carried(chk, l, action, opts, flags[action])
            for flag, kind in [*OPTIONS[action].items(), ("mode", "mode")]:
                if kind == "rest":
                    continue
                if kind in ("path", "secret"):
                    v = value_term(p, opts[flag].dest)
                    on = is_given(p, v) if v is not None else None
                    ok = on is not None and (flag in got) is on
                elif kind == "level":
                    v = value_term(p, opts["--log-file"].dest)
                    ok = flag in got or v is not None and is_given(p, v) is False
                else:
                    ok = flag in got
                what = "the mode" if flag == "mode" else flag
                chk.must(ok, "C32.passed-on", l.e, f"{what} is not passed on if and only if it is given", p)
            for flag, env in got.items():
                known = names[action].setdefault(flag, env)
                chk.must(known == env, "C32.passed-on", l.e, f"{flag} is passed on in different ways", p)
    chk.floor(runs, 4, "ways to run a playbook")
    by_action = plugin_types(chk, documented(chk), names)
    chk.floor(plugin(chk, by_action), 2, "ways the plugin starts")
    chk.floor(adapter_options(chk, found["dap"]), 1, "ways the adapter is run")
    chk.floor(log_levels(chk), 4, "log levels")
    chk.floor(connection(chk), 2, "connections of the debuggee")


# --- C33 -----------------------------------------------------------------------
OWN = "ansibug.dap.debug"
LISTS = {"ANSIBLE_CALLBACKS_ENABLED": "CALLBACKS_ENABLED", "ANSIBLE_COLLECTIONS_PATH": "COLLECTIONS_PATHS"}
STRATEGY_ENV = "ANSIBLE_STRATEGY"
REMOVERS = {"pop", "popitem", "clear", "__delitem__", "unsetenv", "putenv", "update", "__setitem__", "setdefault"}


def location(chk: Check, x, f: FuncInfo) -> str | None:
    """The directory a value is, if it is one of the package."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    if x.k in ("undef", "glob") and tail(str(x.a[0])) == "__file__":
        return "/" + f.module.rel
    v = cv(x)
    if x.k == "attr" and x.a[1] == "parent":
        base = location(chk, x.a[0], f)
        return os.path.dirname(base) if base else None
    if x.k == "item" and isinstance(cv(x.a[1]), int) and is_attr(x.a[0], "parents"):
        base = location(chk, plain(x.a[0]).a[0], f)
        for _ in range(int(cv(x.a[1])) + 1):
            base = os.path.dirname(base) if base else None
        return base
    c = called(x)
    if c and c[0] in PATHS and len(c[1]) == 1:
        return location(chk, c[1][0], f)
    if c and c[0] == "dirname" and len(c[1]) == 1:
        base = location(chk, c[1][0], f)
        return os.path.dirname(base) if base else None
    return None


def is_attr(x, name: str) -> bool:
    x = plain(x) if isinstance(x, T) else x
    return isinstance(x, T) and x.k == "attr" and x.a[1] == name


def joined(p: Path, v: T) -> tuple[object, list] | None:
    """The separator and the elements of a text made of several: elements, star(container), or rest(list)."""
    v = plain(v)
    if isinstance(cv(v), str):
        return ",", [mk("const", x) for x in str(cv(v)).split(",")]
    if is_op(v, "join"):
        sep, seq = v.a[1], v.a[2]
        for x in v.a[3:]:
            if isinstance(x, T) and x.k == "content":
                return sep_of(sep), list(x.a)
        return sep_of(sep), elements(p, seq, None)
    if v.k == "call" and tail(v.a[0]) == "join":
        e = next((e for e in p.events if e.res is v and e.kind == "call"), None)
        if e is None:
            return None
        sep = os_sep(v.a[0]) or (sep_of(e.recv) if e.recv is not None else None)
        return sep, elements(p, e.args[0], e)
    if v.k == "cat":
        return cat_parts(p, v)
    return None


def cat_parts(p: Path, v: T) -> tuple[object, list] | None:
    """A text put together with a separator: own, separator, what was there."""
    parts = list(v.a)
    if len(parts) == 3 and sep_of(parts[1]) in (",", "pathsep"):
        return sep_of(parts[1]), [parts[0], mk("star", mk("op", "split", parts[2], parts[1]))]
    return None


def os_sep(q: str) -> str | None:
    return "pathsep" if q == "os.pathsep.join" else None


def sep_of(x) -> object:
    x = plain(x) if isinstance(x, T) else x
    if isinstance(x, T) and x.k == "glob" and x.a[0] == "os.pathsep":
        return "pathsep"
    return cv(x)


def elements(p: Path, x: T, at: Ev | None) -> list | None:
    """What a list is made of when it is used."""
    o = at.sarg(0) if at is not None else None
    if isinstance(o, Obj) and o.kind == "list":
        return None if o.open else list(o.fields)
    base = unver(x)
    if base.k == "tuple":
        return list(base.a)
    if base.k == "comp" or base.k in ("op", "call"):
        res = [mk("star", base)]
        for e in p.events:
            if at is not None and p.index(e) >= p.index(at):
                break
            if e.kind == "call" and e.recv is not None and unver(e.recv) is base:
                if e.name == "insert" and cv(e.arg(0)) == 0:
                    res.insert(0, e.arg(1))
                elif e.name == "append":
                    res.append(e.arg(0))
                elif e.name in ("extend", "remove", "pop", "clear", "sort", "reverse", "insert"):
                    return None
        return res
    return None


def setting_dump(p: Path) -> Ev | None:
    """The call that asks Ansible for its configuration."""
    es = [e for e in p.events if e.kind == "call" and e.callee in ("subprocess.run", "subprocess.check_output")]
    return es[0] if len(es) == 1 else None


def parsed(x, dump: Ev) -> bool:
    """A value is the list of settings that was printed."""
    x = plain(x) if isinstance(x, T) else x
    c = called(x)
    return c is not None and c[0] in ("loads", "json.loads") and any(y is dump.res for y in walk_term(c[1][-1]))


def field_of(x, key: str) -> T | None:
    """The entry a value is the named field of."""
    x = plain(x) if isinstance(x, T) else x
    if not isinstance(x, T):
        return None
    if x.k == "item" and cv(x.a[1]) == key:
        return plain(x.a[0])
    if is_op(x, "get") and cv(x.a[2]) == key:
        return plain(x.a[1])
    if x.k == "call" and tail(x.a[0]) == "get":
        c = called(x)
        if len(c[1]) >= 2 and cv(c[1][1]) == key:
            return plain(c[1][0])
    return None


def entry_of(x, dump: Ev) -> bool:
    x = plain(x) if isinstance(x, T) else x
    return isinstance(x, T) and x.k == "elem" and parsed(base_of(x.a[0]), dump)


def names_entry(p: Path, entry: T, facts=None) -> list[str]:
    """The settings an entry is known to be."""
    res = []
    for k, v in (facts if facts is not None else p.pc).items():
        if v and is_op(k, "eq"):
            for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                if field_of(a, "name") is entry and isinstance(cv(b), str):
                    res.append(str(cv(b)))
    return res


def value_of(p: Path, x, dump: Ev, key: str) -> bool:
    """A container is the value of a setting."""
    x = plain(x) if isinstance(x, T) else x
    while is_op(x, "list", "tuple", "copy"):
        x = plain(x.a[1])
    if not isinstance(x, T):
        return False
    e = field_of(x, "value")
    if e is not None and entry_of(e, dump):
        return key in names_entry(p, e)
    # {name: value} of all the settings
    for make in (key,):
        t = field_of(x, make)
        if t is not None and t.k == "comp" and t.a[0] == "dict":
            pair = t.a[1]
            kv = list(pair.a) if pair.k == "tuple" else []
            return len(kv) == 2 and all(field_of(kv[i], n) is not None and entry_of(field_of(kv[i], n), dump) for i, n in enumerate(("name", "value"))) and all(only_nameless(c) for c in t.a[3])
    c = called(x)
    if c and c[0] == "next" and c[1] and plain(c[1][0]).k == "comp":
        t = plain(c[1][0])
        e = field_of(t.a[1], "value")
        return e is not None and entry_of(e, dump) and any(is_op(k, "eq") and {field_of(k.a[1], "name"), field_of(k.a[2], "name")} & {e} and key in (cv(k.a[1]), cv(k.a[2])) for k in t.a[3])
    return False


def only_nameless(c) -> bool:
    """A condition that only leaves out entries that are no settings."""
    if is_op(c, "truthy") or is_op(c, "not") and is_op(c.a[1], "isnone"):
        x = c.a[1] if is_op(c, "truthy") else c.a[1].a[1]
        return field_of(x, "name") is not None
    return is_op(c, "in") and cv(c.a[1]) in ("name", "value")


def keeps_list(chk: Check, p: Path, l: Launch, env: str, v: T | None, dump: Ev, home: str) -> int:
    """A list setting starts with what ansibug needs and has all that was configured after it."""
    key = LISTS[env]
    if not chk.must(v is not None, "C33.own", l.e, f"{env} is not set", p):
        return 0
    got = joined(p, v)
    sep = "," if key == "CALLBACKS_ENABLED" else "pathsep"
    if not chk.must(got is not None and got[1] is not None and got[0] in (sep, ":") and got[0] != "," or got is not None and got[1] is not None and got[0] == sep, "C33.own", l.e, f"{env} is not made of the elements of a list", p):
        return 0
    els = got[1]
    first = els[0] if els else None
    own = cv(first) == OWN if key == "CALLBACKS_ENABLED" else location(chk, first, chk.program.func(f"{PKG}._exec_playbook._exec_playbook")) == home
    chk.must(own, "C33.own", l.e, f"{env} does not start with what ansibug needs", p)
    lits: set[T] = set()
    kept = 0
    for x in els[1:]:
        if isinstance(x, T) and x.k == "rest":
            lits.add(x.a[0])
            continue
        ok = isinstance(x, T) and x.k == "star" and value_of(p, x.a[0], dump, key)
        if isinstance(x, T) and plain(x).k == "elem":
            ok = value_of(p, base_of(plain(x).a[0]), dump, key)
        chk.must(ok, "C33.kept", l.e, f"{env} has something else than the configured value", p)
        kept += ok
    added = [e for e in p.events if e.kind == "call" and e.recv is not None and unver(e.recv) in lits]
    for e in added:
        inside = any(x.kind == "loop" and x.loops == e.loops for x in p.events)
        ok = e.name == "extend" and value_of(p, e.arg(0), dump, key)
        if e.name == "append" and inside:
            of = plain(e.arg(0))
            ok = of.k == "elem" and value_of(p, base_of(of.a[0]), dump, key)
        chk.must(ok, "C33.kept", e, f"{env} is changed in another way than by the configured value", p)
        kept += ok
    for e in p.events:
        if e.kind == "loop" and e.recv is not None and value_of(p, base_of(e.recv), dump, key):
            chk.must(not broken(p, e), "C33.kept", e, f"not all of the configured {key} is kept", p)
    kept += any(e.kind == "loopzero" and e.recv is not None and value_of(p, base_of(e.recv), dump, key) for e in p.events)
    wanted = {x for k, val in p.pc.items() if val for x in walk_term(k) if entry_of(x, dump) and key in names_entry(p, plain(x))}
    chk.must(kept or not wanted, "C33.kept", l.e, f"the configured {key} is lost", p)
    return kept


def stops_early(chk: Check, p: Path, dump: Ev) -> None:
    """The settings are only left before the end when all that is needed was found."""
    for lp in [x for x in p.events if x.kind == "loop" and x.recv is not None and parsed(base_of(x.recv), dump) and broken(p, x)]:
        brk = next(x for x in p.events if x.kind == "loopbreak" and x.node is lp.node and p.index(x) > p.index(lp))
        facts = {k: v for k, v in brk.pc.items() if k not in lp.pc}
        sets = {x for k in facts for x in walk_term(k) if x.k == "lit" and x in p.w.initial}
        ok = False
        for s in sets:
            names = {cv(i[0] if isinstance(i, tuple) else i) for i in p.w.initial[s]}
            gone = [e for e in p.events if e.kind in ("call", "delitem") and e.recv is not None and unver(e.recv) is s]
            right = all(e.name in ("remove", "discard", "pop", "__delitem__") and any(cv(e.arg(0)) in names_entry(p, plain(x), e.pc) for k in e.pc for x in walk_term(k) if entry_of(x, dump)) for e in gone)
            ok = ok or set(LISTS.values()) <= names and right
        carried = any(x.k in ("hav", "rest") for k in facts for x in walk_term(k))
        chk.must(ok or not sets and carried, "C33.all-read", brk, "the configuration is not read to the end although not all that is needed was found", p)


def keeps_path(chk: Check, p: Path, l: Launch, v: T | None, home: str) -> int:
    """The Python path starts with the package and has what was in it after that."""
    f = chk.program.func(f"{PKG}._exec_playbook._exec_playbook")
    if not chk.must(v is not None, "C33.own", l.e, "PYTHONPATH is not set", p):
        return 0
    got = joined(p, v)
    if got is None or got[1] is None:
        got = ("pathsep", [v])
    first, rest = got[1][0], got[1][1:]
    chk.must(got[0] in ("pathsep", ":") and location(chk, first, f) == os.path.dirname(home), "C33.own", l.e, "PYTHONPATH does not start with the directory of the package", p)
    unset = any(not v and (is_op(k, "truthy") and env_value(k.a[1]) == "PYTHONPATH" or is_op(k, "in") and cv(k.a[1]) == "PYTHONPATH") or v and is_op(k, "isnone") and env_value(k.a[1]) == "PYTHONPATH" for k, v in p.pc.items())
    isset = any(v and is_op(k, "truthy") and env_value(k.a[1]) == "PYTHONPATH" for k, v in p.pc.items())
    ok = len(rest) == 1 and isinstance(rest[0], T) and rest[0].k == "star" and old_path(rest[0].a[0], isset) or not rest and unset
    ok = ok or added_path(p, rest)
    chk.must(ok, "C33.kept", l.e, "the PYTHONPATH of the user is not kept as it was", p)
    return int(bool(rest))


def added_path(p: Path, rest: list) -> bool:
    """Every entry of the variable that is not empty is added in a loop over them."""
    loops = [e for e in p.events if e.kind in ("loop", "loopzero") and e.recv is not None and is_split(plain(base_of(e.recv)))]
    if not loops or any(broken(p, e) for e in loops if e.kind == "loop"):
        return False
    if all(e.kind == "loopzero" for e in loops):
        return not rest
    lits = {x.a[0] for x in rest if isinstance(x, T) and x.k == "rest"}
    got = [x for x in rest if isinstance(x, T) and x.k != "rest"]
    got += [e.arg(0) for e in p.events if e.kind == "call" and e.recv is not None and unver(e.recv) in lits and e.name == "append"]
    other = [e for e in p.events if e.kind == "call" and e.recv is not None and unver(e.recv) in lits and e.name not in ("append", "insert")]
    els = [plain(x) for x in got if isinstance(x, T)]
    if other or len(els) != len(got) or not all(x.k == "elem" and is_split(plain(x.a[0])) for x in els):
        return False
    # in an iteration without one, the entry is empty
    return bool(els) or any(is_op(k, "truthy") and not v and plain(k.a[1]).k == "elem" and is_split(plain(plain(k.a[1]).a[0])) for k, v in p.pc.items())


def old_path(x, isset: bool) -> bool:
    x = plain(x) if isinstance(x, T) else x
    while is_op(x, "list", "tuple"):
        x = plain(x.a[1])
    if not isinstance(x, T):
        return False
    if x.k == "comp" and x.a[0] in ("list", "gen"):
        base = plain(x.a[2][0]) if len(x.a[2]) == 1 else None
        e = plain(x.a[1])
        return is_split(base) and e.k == "elem" and plain(e.a[0]) is base and all(is_op(c, "truthy") and plain(c.a[1]) is e for c in x.a[3]) and (isset or len(x.a[3]) == 1)
    c = called(x)
    if c and c[0] == "filter" and len(c[1]) == 2:
        return (is_none(c[1][0]) or c[1][0].k in ("glob", "cls")) and is_split(plain(c[1][1]))
    return is_split(x) and isset


def is_split(x) -> bool:
    c = called(x)
    return c is not None and c[0] == "split" and len(c[1]) == 2 and env_value(c[1][0]) == "PYTHONPATH" and sep_of(c[1][1]) in ("pathsep", ":")


WORDS = {"-m", "ansible", "config", "dump", "--format", "json", "-f", "--type", "-t", "base", "ansible.cli.config", "--format=json"}
SOURCES = {"ANSIBLE_CONFIG", "ANSIBLE_HOME", "HOME", "PATH", "PWD", "PYTHONPATH", "ANSIBLE_COLLECTIONS_PATHS", "ANSIBLE_CALLBACK_WHITELIST", *LISTS}


def reads_config(chk: Check, p: Path, dump: Ev) -> None:
    """The configuration that is read is the whole one the playbook would run with."""
    argv = dump.sarg(0, "args")
    items = argv.fields if isinstance(argv, Obj) and not argv.open else list(argv.a) if isinstance(argv, T) and argv.k == "tuple" else []
    words = [cv(x) for x in items[1:]]
    ok = all(w in WORDS for w in words) and {"config", "dump"} & set(words) and ({"--format", "json"} <= set(words) or {"-f", "json"} <= set(words) or "--format=json" in words)
    chk.must(ok, "C33.read", dump, "the configuration is not read as a whole", p)
    env = dump.sarg(None, "env")
    names: dict = {}
    if env is not None and not is_none(env):
        whole = isinstance(env, Obj) and env.kind == "dict" and any(isinstance(k, T) and k.k == "rest" and environ(k.a[0]) for k, _ in env.fields)
        names = {cv(k): cv(v) for k, v in env.fields if isinstance(k, T) and k.k != "rest"} if whole else {}
        chk.must(whole and not set(names) & SOURCES and None not in names, "C33.read", dump, "the configuration is read with another environment than the one of the playbook", p)
    chk.must("cwd" not in dump.kwargs or is_none(dump.kwargs["cwd"]), "C33.read", dump, "the configuration is read in another directory than the one of the playbook", p)
    for n in ("ANSIBLE_VERBOSITY", "ANSIBLE_DEBUG"):
        chk.must(str(names.get(n)).lower() in NO, "C33.read", dump, f"what {n} adds to the output is taken for configuration", p)


def c33(chk: Check) -> None:
    """The environment of the playbook on every path on which one is run."""
    opts = documented(chk)
    mine = {e["name"] for o in opts.values() for e in o.get("env") or [] if isinstance(e, dict) and "name" in e}
    f = chk.program.func(f"{PKG}._exec_playbook._exec_playbook")
    home = "/" + os.path.dirname(chk.program.func(MAIN).module.rel)
    n = 0
    kept = dict.fromkeys([*LISTS, "PYTHONPATH"], 0)
    for p in launches(chk):
        l = launch_of(p)
        if l is None:
            continue
        n += 1
        fields = l.env.fields if isinstance(l.env, Obj) and l.env.kind == "dict" else []
        whole = [i for i, (k, _) in enumerate(fields) if isinstance(k, T) and k.k == "rest"]
        ok = len(whole) == 1 and environ(fields[whole[0]][0].a[0])
        if not chk.must(ok, "C33.environment", l.e, "the playbook is not run with the environment of the user", p):
            continue
        chk.must(not l.env.open, "C33.environment", l.e, "variables of the environment are removed", p)
        for e in p.events:
            if e.recv is None or p.index(e) > p.index(l.e):
                continue
            away = e.kind == "delitem" or e.kind == "call" and e.name in ("pop", "popitem", "clear", "__delitem__", "unsetenv")
            target = environ(e.recv) or unver(e.recv).k == "lit" and unver(e.recv).a[0] == "dict"
            if away and target and e.args and cv(e.args[0]) in mine:
                continue
            if environ(e.recv) and e.kind in ("setitem", "delitem", "call") and (e.kind != "call" or e.name in REMOVERS) or away and target:
                own = not away and e.args and (cv(e.args[0]) in mine or cv(e.args[0]) in LISTS)
                chk.must(own, "C33.environment", e, "the environment of the user is changed", p)
        env = l.settings() or {}
        for name in env:
            chk.must(name in mine or name in LISTS or name in (STRATEGY_ENV, "PYTHONPATH"), "C33.only", l.e, f"{name} is changed as well", p)
        chk.must(cv(env.get(STRATEGY_ENV)) == OWN, "C33.own", l.e, "the strategy of the debugger is not used", p)
        dump = setting_dump(p)
        if not chk.must(dump is not None, "C33.read", l.e, "the configuration of the user is not read", p):
            continue
        reads_config(chk, p, dump)
        stops_early(chk, p, dump)
        for name in LISTS:
            kept[name] += keeps_list(chk, p, l, name, env.get(name), dump, home)
        kept["PYTHONPATH"] += keeps_path(chk, p, l, env.get("PYTHONPATH"), home)
    chk.floor(n, 4, "ways to run a playbook")
    for name, k in kept.items():
        chk.must(k > 0, "C33.kept", f.qual, f"what the user has configured for {name} is not kept")
