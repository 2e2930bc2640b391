"""The lines of a breakpoint (C44)."""

from __future__ import annotations

import ast

from ..program import AnalysisError, FuncInfo
from ..report import Check
from ..segments import NONE, Interp, State, V, integer, num, plus, sub
from ._util import *
from .debuggee import CALC


def resolver(chk: Check) -> FuncInfo:
    """The function that resolves a breakpoint."""
    f = chk.program.find_func(CALC)
    if f is not None:
        return f
    found = [
        g
        for g in functions_of(chk.program, [DEBUGGEE])
        if any(isinstance(n, ast.Call) and tail(ast.unparse(n.func)) == "Breakpoint" and any(k.arg == "end_line" for k in n.keywords) for n in ast.walk(g.node))
    ]
    if len(found) != 1:
        raise AnalysisError("anchor vanished: the function that resolves a breakpoint")
    return found[0]


def param_roles(chk: Check, f: FuncInfo) -> tuple[str, str]:
    """(the known lines, the requested line)."""
    args = [a for a in f.node.args.args if a.arg not in ("self", "cls")] + list(f.node.args.kwonlyargs)
    lists = [a.arg for a in args if a.annotation is not None and re_list(ast.unparse(a.annotation))]
    lines = [a.arg for a in args if a.annotation is not None and ast.unparse(a.annotation) == "int" and not a.arg.endswith("id")]
    if len(lists) != 1 or len(lines) != 1:
        raise AnalysisError(f"anchor vanished: the parameters of {f.qual}")
    return lists[0], lines[0]


def re_list(text: str) -> bool:
    return text.rsplit(".", 1)[-1].startswith(("list[", "List[")) or "Sequence[" in text


def c44(chk: Check) -> None:
    """A breakpoint's lines.

    The known lines of a file begin with an entry that is not None and have one entry at least (C22), the requested line is
    0 or more. Everything else is derived: the invariants of the loops are those of a fixed set that each iteration preserves.
    """
    f = resolver(chk)
    known, line = param_roles(chk, f)
    it = Interp(chk.program, f, "Breakpoint")
    st = State()
    q = (0, (("line", 1),))
    st.env = {a.arg: V("other") for a in f.node.args.args + f.node.args.kwonlyargs}
    st.env[known] = V("list")
    st.env[line] = integer(q)
    last = plus(it.n, -1)
    st.ge = [q, last]
    st.value = [num(0)]
    rets = 0
    # Either the requested line is one of the known ones, or it is after them.
    for within in (True, False):
        s = st.copy()
        if not s.assume(sub(last, q) if within else plus(sub(q, last), -1)):
            continue
        at = q if within else last
        for x in it.block(f.node.body, [s]):
            if x.flow is None or x.flow[0] != "ret" or not x.possible():
                chk.must(x.flow is not None and x.flow[0] == "raise" and False, "always-resolved", f, "a breakpoint is not resolved")
                continue
            rets += 1
            judge(chk, f, x, x.flow[1], at, last, "a known line" if within else "a line after the known ones")
    chk.floor(rets, 4, "ways to resolve a breakpoint")
    chk.floors["loop invariants"] = len(set(it.invariants))
    chk.paths += rets
    chk.functions.add(f.qual)
    chk.entries[f.qual] = rets


def judge(chk: Check, f: FuncInfo, x: State, bp: V, at: tuple, last: tuple, what: str) -> None:
    if not chk.must(bp.k == "rec", "always-resolved", f, f"for {what} the answer is no breakpoint"):
        return
    got = dict(bp.a)
    s, e, ok = got.get("line", NONE), got.get("end_line", NONE), got.get("verified", NONE)
    if not chk.must(s.k == e.k == "int", "lines-known", f, f"for {what} the lines of a breakpoint are not numbers"):
        return
    near = x.proves(sub(at, s.a)) and x.is_null(plus(s.a, 1), at) and x.is_value(s.a)
    chk.must(near, "nearest-before", f, f"for {what} the first line of the breakpoint is not the nearest location at or before it")
    inside = x.proves(sub(last, e.a)) and x.proves(sub(e.a, s.a)) and x.is_null(plus(s.a, 1), e.a)
    chk.must(inside, "until-next", f, f"for {what} the range of the breakpoint covers another location, or ends before it starts")
    ends = x.proves(sub(e.a, last)) or x.is_value(plus(e.a, 1))
    chk.must(ends, "until-next", f, f"for {what} the range of the breakpoint ends before the next location")
    zero = [z for y, z in x.zero.items() if x.eq(y, s.a)]
    good = ok.k == "const" and bool(zero) and ok.a is (not zero[0])
    chk.must(good, "verified-when-possible", f, f"for {what} the breakpoint is {'verified at a location that cannot be stopped at' if zero and zero[0] else 'not verified although its location can be stopped at'}")
