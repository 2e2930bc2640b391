"""Abstract interpretation of code that searches a list by its index.

The abstract state has linear inequalities over the integers of the code and segments of the list whose entries are
known to be None. The invariants of a loop are found by dropping the candidates that an iteration does not preserve.
"""

from __future__ import annotations

import ast
import dataclasses
import typing as t

from .program import AnalysisError, FuncInfo

Lin = tuple  # (constant, ((atom, coefficient), ...))
MAX_STATES = 400
_N = 0


def atom(name: str) -> Lin:
    global _N
    _N += 1
    return (0, ((f"{name}'{_N}", 1),))


def num(c: int) -> Lin:
    return (c, ())


def add(a: Lin, b: Lin, k: int = 1) -> Lin:
    d = dict(a[1])
    for n, c in b[1]:
        d[n] = d.get(n, 0) + k * c
    return (a[0] + k * b[0], tuple(sorted((n, c) for n, c in d.items() if c)))


def sub(a: Lin, b: Lin) -> Lin:
    return add(a, b, -1)


def plus(a: Lin, c: int) -> Lin:
    return (a[0] + c, a[1])


@dataclasses.dataclass(frozen=True)
class V:
    """An abstract value."""

    k: str  # int, elem, none, const, list, slice, seq, enum, rec, tuple, func, other
    a: t.Any = None
    b: t.Any = None
    c: t.Any = None


OTHER = V("other")
NONE = V("none")


def integer(x: Lin) -> V:
    return V("int", x)


class State:
    def __init__(self) -> None:
        self.env: dict[str, V] = {}
        self.ge: list[Lin] = []  # each of them is >= 0
        self.null: list[tuple[Lin, Lin]] = []  # the entries from .. to are None
        self.value: list[Lin] = []  # the entry is not None
        self.zero: dict[Lin, bool] = {}  # whether the entry is 0
        self.flow: tuple | None = None

    def copy(self) -> State:
        r = State()
        r.env, r.ge, r.null, r.value, r.zero, r.flow = dict(self.env), list(self.ge), list(self.null), list(self.value), dict(self.zero), self.flow
        return r

    # Facts.

    def proves(self, x: Lin, depth: int = 3) -> bool:
        """Whether x >= 0 follows: x is a sum of known inequalities and a constant that is not negative."""
        if not x[1]:
            return x[0] >= 0
        if depth == 0:
            return False
        for f in self.ge:
            # One of the terms has to go.
            if any(n == m and c * d > 0 for n, c in x[1] for m, d in f[1]):
                r = sub(x, f)
                if sum(abs(c) for _, c in r[1]) <= sum(abs(c) for _, c in x[1]) + 1 and self.proves(r, depth - 1):
                    return True
        return False

    def eq(self, a: Lin, b: Lin) -> bool:
        return a == b or self.proves(sub(a, b)) and self.proves(sub(b, a))

    def assume(self, x: Lin) -> bool:
        """x >= 0 from now on, False if that cannot be."""
        if self.proves(plus(sub(num(0), x), -1)):
            return False
        if not self.proves(x, 1):
            self.ge.append(x)
        return True

    def is_null(self, lo: Lin, hi: Lin) -> bool:
        """Whether every entry from lo to hi is None."""
        return self.covered(lo, hi, tuple(range(len(self.null))))

    def covered(self, lo: Lin, hi: Lin, left: tuple[int, ...]) -> bool:
        if self.proves(plus(sub(lo, hi), -1)):
            return True
        for i in left:
            a, b = self.null[i]
            # It may be empty, then it ends right before its start.
            rest = tuple(j for j in left if j != i)
            if self.proves(sub(lo, a)) and self.proves(plus(sub(b, lo), 1)):
                return self.proves(sub(b, hi)) or self.covered(plus(b, 1), hi, rest)
        for i in left:
            a, b = self.null[i]
            rest = tuple(j for j in left if j != i)
            if self.proves(sub(b, hi)) and self.proves(plus(sub(hi, a), 1)):
                return self.covered(lo, plus(a, -1), rest)
        return False

    def is_value(self, x: Lin) -> bool:
        return any(self.eq(x, y) for y in self.value) or any(self.eq(x, y) for y in self.zero)

    def sharpen(self) -> bool:
        """An entry that has a value is before or after what is None."""
        for x in self.value:
            for a, b in self.null:
                if self.proves(sub(x, a)) and not self.assume(plus(sub(x, b), -1)):
                    return False
                if self.proves(sub(b, x)) and not self.assume(plus(sub(a, x), -1)):
                    return False
        return True

    def possible(self) -> bool:
        for x in self.value + list(self.zero):
            for a, b in self.null:
                if self.proves(sub(x, a)) and self.proves(sub(b, x)):
                    return False
        return True

    def entry_none(self, x: Lin, is_none: bool) -> bool:
        if is_none:
            if self.is_value(x):
                return False
            self.null.append((x, x))
            return self.sharpen() and self.possible()
        else:
            if self.is_null(x, x):
                return False
            self.value.append(x)
        return self.sharpen() and self.possible()

    def entry_zero(self, x: Lin, zero: bool) -> bool:
        """Whether the entry, that is not None, is 0."""
        for y, z in self.zero.items():
            if self.eq(x, y):
                return z == zero
        if self.is_null(x, x):
            return False
        self.zero[x] = zero
        return self.possible()


class Interp:
    """Runs a function over the abstract state, the list has the length n."""

    def __init__(self, program: t.Any, func: FuncInfo, record: str) -> None:
        self.program = program
        self.func = func
        self.record = record
        self.n = atom("len")
        self.loops = 0
        self.obligations = 0
        self.invariants: list[str] = []
        self.stack: list[FuncInfo] = []

    def give_up(self, node: ast.AST, what: str) -> t.NoReturn:
        raise AnalysisError(f"{self.func.module.rel}:{getattr(node, 'lineno', 0)}: {what}")

    # Statements.

    def block(self, body: list[ast.stmt], sts: list[State]) -> list[State]:
        for s in body:
            nxt: list[State] = []
            for st in sts:
                nxt.extend(self.stmt(s, st) if st.flow is None else [st])
            sts = nxt
            if len(sts) > MAX_STATES:
                self.give_up(s, "too many cases")
        return sts

    def stmt(self, s: ast.stmt, st: State) -> list[State]:
        if isinstance(s, ast.Expr):
            return [x for x, _ in self.ev(s.value, st)]
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [st]
        if isinstance(s, ast.Assert):
            return [x for x, b in self.cond(s.test, st) if b]
        if isinstance(s, ast.FunctionDef):
            st.env[s.name] = V("func", s)
            return [st]
        if isinstance(s, ast.Assign):
            out = []
            for x, v in self.ev(s.value, st):
                for tg in s.targets:
                    self.assign(tg, v, x)
                out.append(x)
            return out
        if isinstance(s, ast.AnnAssign):
            if s.value is None:
                return [st]
            return self.stmt(ast.copy_location(ast.Assign([s.target], s.value), s), st)
        if isinstance(s, ast.AugAssign):
            load = ast.copy_location(ast.Name(s.target.id, ast.Load()), s) if isinstance(s.target, ast.Name) else s.target
            return self.stmt(ast.copy_location(ast.Assign([s.target], ast.copy_location(ast.BinOp(load, s.op, s.value), s)), s), st)
        if isinstance(s, ast.If):
            out = []
            for x, b in self.cond(s.test, st):
                out.extend(self.block(s.body if b else s.orelse, [x]))
            return out
        if isinstance(s, ast.Return):
            out = []
            for x, v in self.ev(s.value, st) if s.value is not None else [(st, NONE)]:
                x.flow = ("ret", v)
                out.append(x)
            return out
        if isinstance(s, ast.Raise):
            st.flow = ("raise",)
            return [st]
        if isinstance(s, (ast.Break, ast.Continue)):
            st.flow = ("brk",) if isinstance(s, ast.Break) else ("cont",)
            return [st]
        if isinstance(s, ast.With):
            return self.block(s.body, [st])
        if isinstance(s, ast.Match):
            return self.match(s, st)
        if isinstance(s, ast.While):
            return self.loop(st, stored(s), lambda x: self.cond(s.test, x), lambda x: self.block(s.body, [x]), s.orelse, s)
        if isinstance(s, ast.For):
            out = []
            for x, v in self.ev(s.iter, st):
                out.extend(self.for_loop(x, v, s.target, stored(s), lambda y: self.block(s.body, [y]), s.orelse, s))
            return out
        if isinstance(s, ast.Try) and not s.handlers:
            return self.block(s.finalbody, self.block(s.orelse, self.block(s.body, [st])))
        self.give_up(s, f"{type(s).__name__} is not analysed")

    def match(self, s: ast.Match, st: State) -> list[State]:
        out, rest = [], [st]
        for c in s.cases:
            nxt = []
            for x in rest:
                p = c.pattern
                if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
                    got = [(x, True)]
                elif isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
                    val = p.value if isinstance(p, ast.MatchValue) else ast.copy_location(ast.Constant(p.value), s)
                    got = self.cond(ast.copy_location(ast.Compare(s.subject, [ast.Eq() if isinstance(p, ast.MatchValue) else ast.Is()], [val]), s), x)
                else:
                    self.give_up(s, "the pattern is not analysed")
                for y, b in got:
                    for z, g in self.cond(c.guard, y) if b and c.guard is not None else [(y, b)]:
                        if g:
                            out.extend(self.block(c.body, [z]))
                        else:
                            nxt.append(z)
            rest = nxt
        return out + rest

    def assign(self, tg: ast.AST, v: V, st: State) -> None:
        if isinstance(tg, ast.Name):
            st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            vals = list(v.a) if v.k == "tuple" and len(v.a) == len(tg.elts) else [OTHER] * len(tg.elts)
            for x, y in zip(tg.elts, vals):
                self.assign(x, y, st)
        elif isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name):
            o = st.env.get(tg.value.id)
            if o is not None and o.k == "rec":
                st.env[tg.value.id] = V("rec", tuple((n, x) for n, x in o.a if n != tg.attr) + ((tg.attr, v),))
        elif isinstance(tg, ast.Subscript) and isinstance(tg.value, ast.Name) and st.env.get(tg.value.id, OTHER).k == "list":
            self.give_up(tg, "the list is changed")

    # Loops.

    def for_loop(self, st: State, it: V, target: ast.AST, names: set[str], body: t.Callable, orelse: list, node: ast.AST) -> list[State]:
        seq = self.sequence(it)
        if seq is None:
            self.give_up(node, "what the loop is over is not analysed")
        if seq.k == "items":
            out, cur = [], [st]
            for v in seq.a:
                nxt = []
                for x in cur:
                    self.assign(target, v, x)
                    for y in body(x):
                        if y.flow in (None, ("cont",)):
                            y.flow = None
                            nxt.append(y)
                        else:
                            y.flow = None if y.flow == ("brk",) else y.flow
                            out.append(y)
                cur = nxt
            return out + self.block(orelse, cur)
        (start, stop, step), make = seq.a, seq.b
        self.loops += 1
        k = f"$k{self.loops}"
        st.env[k] = integer(start)
        st.env[k + "end"] = integer(stop)

        def test(x: State) -> list[tuple[State, bool]]:
            at = x.env[k].a
            return self.compare_ints(at, stop, "<" if step > 0 else ">", x)

        def run(x: State) -> list[State]:
            at = x.env[k].a
            self.assign(target, make(at), x)
            res = body(x)
            for y in res:
                if y.flow in (None, ("cont",)):
                    y.env[k] = integer(plus(at, step))
            return res

        return self.loop(st, names | {k}, test, run, orelse, node)

    def loop(self, st: State, names: set[str], test: t.Callable, body: t.Callable, orelse: list, node: ast.AST) -> list[State]:
        out: list[State] = []
        # The first iteration on its own, what a loop sets is set then.
        again = []
        for x, b in test(st):
            if not b:
                out.extend(self.block(orelse, [x]))
                continue
            for y in body(x):
                if y.flow in (None, ("cont",)):
                    y.flow = None
                    again.append(y)
                else:
                    y.flow = None if y.flow == ("brk",) else y.flow
                    out.append(y)
        for e in again:
            out.extend(self.invariant(e, names, test, body, orelse, node))
        return out

    def invariant(self, e: State, names: set[str], test: t.Callable, body: t.Callable, orelse: list, node: ast.AST) -> list[State]:
        names = {n for n in names if n in e.env}
        ints = sorted(n for n in names if e.env[n].k == "int")
        new = {n: atom(n) for n in ints}
        entry = {n: e.env[n].a for n in ints}
        fixed = {v.a for n, v in e.env.items() if v.k == "int" and n not in ints and v.a[1]}
        cands = candidates(ints, entry, self.n, sorted(fixed))
        cands = [c for c in cands if holds(c, entry, e)]
        forms: dict[str, list] = {}
        for n in sorted(names - set(ints)):
            v = e.env[n]
            opts: list = []
            if v.k == "elem":
                opts = [(w, o) for w in ints for o in (0, 1, -1) if e.eq(v.a, plus(entry[w], o))]
            elif v.k in ("none", "const", "list", "func"):
                opts = [v]
            forms[n] = opts + [None]
        while True:
            h = e.copy()
            ok = True
            for n in ints:
                h.env[n] = integer(new[n])
            for n, opts in forms.items():
                o = opts[0]
                h.env[n] = OTHER if o is None else o if isinstance(o, V) else V("elem", plus(new[o[0]], o[1]))
            for c in cands:
                ok = ok and use(c, new, h)
            ok = ok and h.sharpen() and h.possible()
            ends: list[State] = []
            leave: list[State] = []
            if ok:
                for x, b in test(h):
                    if not b:
                        leave.extend(self.block(orelse, [x]))
                        continue
                    for y in body(x):
                        if y.flow in (None, ("cont",)):
                            y.flow = None
                            ends.append(y)
                        else:
                            y.flow = None if y.flow == ("brk",) else y.flow
                            leave.append(y)
            changed = False
            for y in ends:
                for n in list(ints):
                    if y.env[n].k != "int":
                        # No longer a number on some path: nothing is known about it.
                        ints.remove(n)
                        forms[n] = [None]
                        cands = [c for c in cands if n not in c[1]]
                        forms = {m: [o for o in opts if not (isinstance(o, tuple) and o[0] == n)] for m, opts in forms.items()}
                        changed = True
                if changed:
                    break
                now = {n: y.env[n].a for n in ints}
                kept = [c for c in cands if holds(c, now, y)]
                changed = changed or len(kept) < len(cands)
                cands = kept
                for n, opts in forms.items():
                    o = opts[0]
                    v = y.env.get(n, OTHER)
                    good = o is None or (v == o if isinstance(o, V) else v.k == "elem" and y.eq(v.a, plus(now[o[0]], o[1])))
                    if not good:
                        opts.pop(0)
                        changed = True
            if not changed:
                self.obligations += len(ends) * (len(cands) + len(forms))
                self.invariants.extend(f"line {getattr(node, 'lineno', 0)}: {text(c)}" for c in cands)
                return leave

    def sequence(self, v: V) -> V | None:
        if v.k == "list":
            return V("seq", (num(0), self.n, 1), elem)
        if v.k == "slice":
            return V("seq", (v.a, v.b, 1), elem)
        if v.k == "tuple":
            return V("items", v.a)
        return v if v.k == "seq" else None

    # Expressions.

    def ev(self, e: ast.expr, st: State) -> list[tuple[State, V]]:
        m = getattr(self, f"ev_{type(e).__name__}", None)
        if m is not None:
            return m(e, st)
        # Nothing is known about the value, what is in it may still be called.
        return [(st, OTHER)]

    def evs(self, es: list[ast.expr], st: State) -> list[tuple[State, list[V]]]:
        res: list[tuple[State, list[V]]] = [(st, [])]
        for e in es:
            res = [(y, vs + [v]) for x, vs in res for y, v in self.ev(e, x)]
        return res

    def ev_Name(self, e, st):
        if e.id in st.env:
            return [(st, st.env[e.id])]
        vals = self.func.module.assigns.get(e.id, [])
        if len(vals) == 1 and isinstance(vals[0], ast.Constant):
            return self.ev(vals[0], st)
        return [(st, OTHER)]

    def ev_Constant(self, e, st):
        if e.value is None:
            return [(st, NONE)]
        if isinstance(e.value, int) and not isinstance(e.value, bool):
            return [(st, integer(num(e.value)))]
        return [(st, V("const", e.value))]

    def ev_NamedExpr(self, e, st):
        out = []
        for x, v in self.ev(e.value, st):
            self.assign(e.target, v, x)
            out.append((x, v))
        return out

    def ev_Tuple(self, e, st):
        return [(x, V("tuple", tuple(vs))) for x, vs in self.evs(e.elts, st)]

    ev_List = ev_Set = ev_Tuple

    def ev_IfExp(self, e, st):
        return [r for x, b in self.cond(e.test, st) for r in self.ev(e.body if b else e.orelse, x)]

    def ev_Compare(self, e, st):
        return [(x, V("const", b)) for x, b in self.cond(e, st)]

    def ev_BoolOp(self, e, st):
        out, cur = [], [st]
        stop = isinstance(e.op, ast.Or)
        for i, v in enumerate(e.values):
            nxt = []
            for x in cur:
                for y, val in self.ev(v, x):
                    if i == len(e.values) - 1:
                        out.append((y, val))
                        continue
                    for z, b in self.truth(val, y):
                        if b is stop:
                            out.append((z, val))
                        else:
                            nxt.append(z)
            cur = nxt
        return out

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(x, V("const", b)) for x, b in self.cond(e, st)]
        out = []
        for x, v in self.ev(e.operand, st):
            out.append((x, integer(sub(num(0), v.a)) if isinstance(e.op, ast.USub) and v.k == "int" else OTHER))
        return out

    def ev_BinOp(self, e, st):
        out = []
        for x, (a, b) in self.evs([e.left, e.right], st):
            v = OTHER
            if a.k == b.k == "int":
                if isinstance(e.op, (ast.Add, ast.Sub)):
                    v = integer(add(a.a, b.a, 1 if isinstance(e.op, ast.Add) else -1))
            out.append((x, v))
        return out

    def ev_Subscript(self, e, st):
        out = []
        for x, o in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                out.extend(self.sliced(e.slice, o, x))
                continue
            for y, i in self.ev(e.slice, x):
                out.extend(self.entry(o, i, y))
        return out

    def entry(self, o: V, i: V, st: State) -> list[tuple[State, V]]:
        if o.k == "tuple" and i.k == "int" and not i.a[1] and -len(o.a) <= i.a[0] < len(o.a):
            return [(st, o.a[i.a[0]])]
        if i.k != "int":
            return [(st, OTHER)]
        if o.k == "list":
            lo, hi = num(0), self.n
        elif o.k == "slice":
            lo, hi = o.a, o.b
        elif o.k == "seq" and not i.a[1]:
            (start, stop, step), make = o.a, o.b
            at = plus(start, step * i.a[0]) if i.a[0] >= 0 else plus(stop, step * i.a[0])
            return [(x, make(at)) for x, b in self.compare_ints(at, stop if i.a[0] >= 0 else start, {1: "<", -1: ">"}[step] if i.a[0] >= 0 else {1: ">=", -1: "<="}[step], st) if b]
        else:
            return [(st, OTHER)]
        out = []
        for x, neg in self.compare_ints(i.a, num(0), "<", st):
            at = add(hi, i.a) if neg else add(lo, i.a)
            # Out of the list, there is no such entry then.
            for y, b in self.compare_ints(at, hi, "<", x):
                for z, c in self.compare_ints(at, lo, ">=", y) if b else []:
                    if c:
                        out.append((z, elem(at)))
        return out

    def sliced(self, s: ast.Slice, o: V, st: State) -> list[tuple[State, V]]:
        step = s.step.operand if isinstance(s.step, ast.UnaryOp) and isinstance(s.step.op, ast.USub) else s.step
        back = step is not s.step
        if step is not None and not (isinstance(step, ast.Constant) and step.value == 1) or o.k not in ("list", "slice"):
            return [(st, OTHER)]
        base, end = (num(0), self.n) if o.k == "list" else (o.a, o.b)
        out = []
        for x, vs in self.evs([y for y in (s.lower, s.upper) if y is not None], st):
            it = iter(vs)
            lo = next(it) if s.lower is not None else None
            hi = next(it) if s.upper is not None else None
            if any(v is not None and v.k not in ("int", "none") for v in (lo, hi)):
                out.append((x, OTHER))
                continue
            if back:
                # From lo down to, and without, hi.
                for y, a in self.clamped(lo, plus(end, -1), base, plus(end, -1), -1, x):
                    for z, b in self.clamped(hi, plus(base, -1), base, plus(end, -1), -1, y):
                        out.append((z, V("seq", (a, b, -1), elem)))
            else:
                for y, a in self.clamped(lo, base, base, end, 0, x):
                    for z, b in self.clamped(hi, end, base, end, 0, y):
                        out.append((z, V("slice", a, b)))
        return out

    def clamped(self, v: V | None, default: Lin, base: Lin, top: Lin, floor: int, st: State) -> list[tuple[State, Lin]]:
        """What an end of a slice refers to."""
        if v is None or v.k == "none":
            return [(st, default)]
        out = []
        for x, neg in self.compare_ints(v.a, num(0), "<", st):
            at = add(plus(top, -floor), v.a) if neg else add(base, v.a)
            for y, over in self.compare_ints(at, top, ">", x):
                if over:
                    out.append((y, top))
                    continue
                low = plus(base, floor)
                for z, under in self.compare_ints(at, low, "<", y):
                    out.append((z, low if under else at))
        return out

    def ev_Attribute(self, e, st):
        out = []
        for x, o in self.ev(e.value, st):
            got = [v for n, v in o.a if n == e.attr] if o.k == "rec" else []
            out.append((x, got[-1] if got else OTHER))
        return out

    def ev_Lambda(self, e, st):
        return [(st, V("func", e))]

    def ev_GeneratorExp(self, e, st):
        return [(st, V("gen", e))]

    ev_ListComp = ev_SetComp = ev_GeneratorExp
    ev_Starred = ev_JoinedStr = lambda self, e, st: [(st, OTHER)]

    def ev_Call(self, e: ast.Call, st: State) -> list[tuple[State, V]]:
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if name == self.record:
            out = []
            for x, vs in self.evs([k.value for k in e.keywords], st):
                out.append((x, V("rec", tuple((k.arg, v) for k, v in zip(e.keywords, vs)))))
            return out
        if isinstance(f, ast.Name) and f.id not in st.env and hasattr(self, f"fn_{f.id}") and not any(isinstance(a, ast.Starred) for a in e.args):
            return getattr(self, f"fn_{f.id}")(e, st)
        if name == "cast" and len(e.args) == 2:
            return self.ev(e.args[1], st)
        if name == "replace" and e.args:
            out = []
            for x, vs in self.evs([e.args[0]] + [k.value for k in e.keywords], st):
                new = tuple((k.arg, v) for k, v in zip(e.keywords, vs[1:]))
                out.append((x, V("rec", vs[0].a + new) if vs[0].k == "rec" else OTHER))
            return out
        target = self.callee(f, st)
        if target is not None:
            return self.call(target, e, st)
        return [(x, OTHER) for x, _ in self.evs([a for a in e.args if not isinstance(a, ast.Starred)], st)]

    def callee(self, f: ast.expr, st: State) -> t.Any:
        if isinstance(f, ast.Name):
            v = st.env.get(f.id)
            if v is not None:
                return v.a if v.k == "func" else None
            return self.func.module.funcs.get(f.id)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and self.func.cls is not None:
            if f.value.id in ("self", "cls", self.func.cls.node.name):
                return self.func.cls.methods.get(f.attr)
        if isinstance(f, ast.Lambda):
            return f
        return None

    def call(self, target: t.Any, e: ast.Call, st: State) -> list[tuple[State, V]]:
        node = target.node if isinstance(target, FuncInfo) else target
        if len(self.stack) > 6:
            self.give_up(e, "recursion is not analysed")
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if isinstance(target, FuncInfo) and target.cls is not None and names[:1] in (["self"], ["cls"]):
            names = names[1:]
        out = []
        kws = [k for k in e.keywords if k.arg]
        for x, vs in self.evs([y for y in e.args if not isinstance(y, ast.Starred)] + [k.value for k in kws], st):
            env = dict(zip(names, vs))
            env.update({k.arg: v for k, v in zip(kws, vs[len(e.args):])})
            defaults = dict(zip(reversed(names), reversed(a.defaults)))
            defaults.update({p.arg: d for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for n, d in defaults.items():
                if n not in env:
                    env[n] = self.ev(d, x)[0][1]
            outer = x.env
            y = x.copy()
            # What is nested sees the variables around it.
            y.env = {**(outer if not isinstance(target, FuncInfo) else {}), **env}
            self.stack.append(target)
            try:
                if isinstance(node, ast.Lambda):
                    for z, v in self.ev(node.body, y):
                        z.env = dict(outer)
                        out.append((z, v))
                    continue
                ends = self.block(node.body, [y])
            finally:
                self.stack.pop()
            for z in ends:
                if z.flow == ("raise",):
                    continue
                v = z.flow[1] if z.flow is not None and z.flow[0] == "ret" else NONE
                z.flow = None
                z.env = dict(outer)
                out.append((z, v))
        return out

    def fn_len(self, e, st):
        out = []
        for x, v in self.ev(e.args[0], st):
            if v.k == "list":
                out.append((x, integer(self.n)))
            elif v.k == "slice":
                out.extend((y, integer(sub(v.b, v.a) if b else num(0))) for y, b in self.compare_ints(v.a, v.b, "<=", x))
            elif v.k == "tuple":
                out.append((x, integer(num(len(v.a)))))
            else:
                out.append((x, OTHER))
        return out

    def extreme(self, e, st, op):
        if len(e.args) == 1:
            return self.searched(e, st, op)
        out = []
        for x, vs in self.evs(e.args, st):
            if not all(v.k == "int" for v in vs):
                out.append((x, OTHER))
                continue
            cur = [(x, vs[0])]
            for v in vs[1:]:
                cur = [(z, best if b else v) for y, best in cur for z, b in self.compare_ints(best.a, v.a, op, y)]
            out.extend(cur)
        return out

    def fn_min(self, e, st):
        return self.extreme(e, st, "<=")

    def fn_max(self, e, st):
        return self.extreme(e, st, ">=")

    def fn_bool(self, e, st):
        return [(y, V("const", b)) for x, v in self.ev(e.args[0], st) for y, b in self.truth(v, x)]

    def fn_int(self, e, st):
        return [(x, v if v.k in ("int", "elem") else OTHER) for x, v in self.ev(e.args[0], st)]

    def fn_list(self, e, st):
        return self.ev(e.args[0], st) if len(e.args) == 1 else [(st, OTHER)]

    fn_tuple = fn_iter = fn_list

    def fn_range(self, e, st):
        out = []
        for x, vs in self.evs(e.args, st):
            if not all(v.k == "int" for v in vs) or not vs or len(vs) == 3 and vs[2].a not in (num(1), num(-1)):
                out.append((x, OTHER))
                continue
            lo, hi = (num(0), vs[0].a) if len(vs) == 1 else (vs[0].a, vs[1].a)
            out.append((x, V("seq", (lo, hi, vs[2].a[0] if len(vs) == 3 else 1), integer)))
        return out

    def fn_reversed(self, e, st):
        out = []
        for x, v in self.ev(e.args[0], st):
            s = self.sequence(v)
            if s is None:
                out.append((x, OTHER))
            elif s.k == "items":
                out.append((x, V("tuple", s.a[::-1])))
            else:
                (lo, hi, step), make = s.a, s.b
                out.append((x, V("seq", (plus(hi, -step), plus(lo, -step), -step), make)))
        return out

    def fn_enumerate(self, e, st):
        first = e.args[1] if len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "start"), ast.copy_location(ast.Constant(0), e))
        out = []
        for x, (v, o) in self.evs([e.args[0], first], st):
            s = self.sequence(v)
            if s is None or o.k != "int":
                out.append((x, OTHER))
            elif s.k == "items":
                out.append((x, V("tuple", tuple(V("tuple", (integer(plus(o.a, i)), y)) for i, y in enumerate(s.a)))))
            else:
                (lo, hi, step), make = s.a, s.b
                out.append((x, V("seq", s.a, lambda k, lo=lo, step=step, make=make, o=o: V("tuple", (integer(add(o.a, sub(k, lo), step)), make(k))))))
        return out

    def fn_zip(self, e, st):
        out = []
        for x, vs in self.evs(e.args, st):
            seqs = [self.sequence(v) for v in vs]
            if not seqs or any(s is None or s.k != "seq" for s in seqs):
                out.append((x, OTHER))
                continue
            # As long as the shortest of them.
            cur = [(x, seqs[0])]
            for s in seqs[1:]:
                cur = [(z, best if b else s) for y, best in cur for z, b in self.compare_ints(length(best), length(s), "<=", y)]
            for y, best in cur:
                (lo, hi, step), _ = best.a, best.b

                def make(k: Lin, lo: Lin = lo, step: int = step) -> V:
                    return V("tuple", tuple(s.b(add(s.a[0], sub(k, lo), s.a[2] * step)) for s in seqs))

                out.append((y, V("seq", (lo, hi, step), make)))
        return out

    def fn_next(self, e, st):
        return self.searched(e, st, "next")

    def fn_any(self, e, st):
        return self.searched(e, st, "any")

    def fn_all(self, e, st):
        return self.searched(e, st, "all")

    def fn_isinstance(self, e, st):
        out = []
        for x, v in self.ev(e.args[0], st):
            if v.k in ("elem", "none", "int"):
                out.extend((y, V("const", not b)) for y, b in self.is_none(v, x))
            else:
                out.extend((y, V("const", b)) for y, b in self.either(x))
        return out

    def searched(self, e: ast.Call, st: State, op: str) -> list[tuple[State, V]]:
        """The first (or last) of what a generator has."""
        default = e.args[1] if op == "next" and len(e.args) > 1 else next((k.value for k in e.keywords if k.arg == "default"), None)
        out = []
        for x, v in self.ev(e.args[0], st):
            gen = v.a if v.k == "gen" else None
            if gen is None and self.sequence(v) is not None and self.sequence(v).k == "seq":
                (lo, hi, step), make = self.sequence(v).a, self.sequence(v).b
                for y, b in self.compare_ints(lo, hi, "<" if step > 0 else ">", x):
                    if b:
                        last = op == "<=" and step < 0 or op == ">=" and step > 0
                        out.append((y, make(plus(hi, -step) if last else lo)))
                    elif default is not None:
                        out.extend(self.ev(default, y))
                continue
            if gen is None or len(gen.generators) != 1:
                out.append((x, OTHER))
                continue
            g = gen.generators[0]
            for y, it in self.ev(g.iter, x):
                s = self.sequence(it)
                if s is None or s.k != "seq":
                    out.append((y, OTHER))
                    continue
                if op in ("<=", ">="):
                    probe = s.b(atom("probe"))
                    z = y.copy()
                    self.assign(g.target, probe, z)
                    val = self.ev(gen.elt, z)[0][1]
                    k = atom("probe")
                    rising = val.k == "int" and isinstance(gen.elt, ast.Name)
                    if not rising:
                        out.append((y, OTHER))
                        continue
                    up = [c for n, c in val.a[1] if n.startswith("probe")] == [1] and k is not None
                    want = s.a[2] if up else -s.a[2]
                    if (op == ">=") == (want > 0):
                        (lo, hi, step), make = s.a, s.b
                        s = V("seq", (plus(hi, -step), plus(lo, -step), -step), make)
                out.extend(self.first(y, s, g, gen.elt, op, default, e))
        return out

    def first(self, st: State, s: V, g: ast.comprehension, elt: ast.expr, op: str, default: ast.expr | None, node: ast.AST) -> list[tuple[State, V]]:
        self.loops += 1
        got = f"$v{self.loops}"
        outer = dict(st.env)

        def body(x: State) -> list[State]:
            sts = [x]
            for c in g.ifs:
                nxt = []
                for y in sts:
                    if y.flow is not None:
                        nxt.append(y)
                        continue
                    for z, b in self.cond(c, y):
                        z.flow = None if b else ("cont",)
                        nxt.append(z)
                sts = nxt
            res = []
            for y in sts:
                if y.flow is not None:
                    res.append(y)
                elif op in ("any", "all"):
                    for z, b in self.cond(elt, y):
                        if b is (op == "any"):
                            z.env[got] = V("const", b)
                            z.flow = ("brk",)
                        res.append(z)
                else:
                    for z, v in self.ev(elt, y):
                        z.env[got] = v
                        z.flow = ("brk",)
                        res.append(z)
            return res

        names = stored(g.target)
        out = []
        for x in self.for_loop(st, s, g.target, names, body, [], node):
            v = x.env.pop(got, None)
            x.env = {n: y for n, y in x.env.items() if n in outer and n not in names} | {n: y for n, y in outer.items() if n in names}
            if v is not None:
                out.append((x, v))
            elif op in ("any", "all"):
                out.append((x, V("const", op == "all")))
            elif default is not None:
                out.extend(self.ev(default, x))
        return out

    # Conditions.

    def either(self, st: State) -> list[tuple[State, bool]]:
        return [(st.copy(), True), (st, False)]

    def cond(self, e: ast.expr, st: State) -> list[tuple[State, bool]]:
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(x, not b) for x, b in self.cond(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, cur = [], [st]
            for v in e.values:
                nxt = []
                for x in cur:
                    for y, b in self.cond(v, x):
                        if b is stop:
                            out.append((y, b))
                        else:
                            nxt.append(y)
                cur = nxt
            return out + [(x, not stop) for x in cur]
        if isinstance(e, ast.Compare):
            out = []
            cur = self.ev(e.left, st)
            for op, right in zip(e.ops, e.comparators):
                nxt = []
                for x, a in cur:
                    for y, b in self.ev(right, x):
                        for z, ok in self.compare(a, op, b, y):
                            if ok:
                                nxt.append((z, b))
                            else:
                                out.append((z, False))
                cur = nxt
            return out + [(x, True) for x, _ in cur]
        return [r for x, v in self.ev(e, st) for r in self.truth(v, x)]

    def truth(self, v: V, st: State) -> list[tuple[State, bool]]:
        if v.k == "int":
            return [(x, not b) for x, b in self.compare_ints(v.a, num(0), "==", st)]
        if v.k == "elem":
            return [(y, not z) for x, b in self.is_none(v, st) for y, z in ([(x, True)] if b else self.is_zero(v.a, x))]
        if v.k == "none":
            return [(st, False)]
        if v.k == "const":
            return [(st, bool(v.a))]
        if v.k in ("rec", "list"):
            return [(st, True)]
        if v.k == "slice":
            return self.compare_ints(v.a, v.b, "<", st)
        return self.either(st)

    def is_none(self, v: V, st: State) -> list[tuple[State, bool]]:
        if v.k == "none":
            return [(st, True)]
        if v.k == "other":
            return self.either(st)
        if v.k != "elem":
            return [(st, False)]
        a, b = st.copy(), st
        return [(x, r) for x, r in ((a, True), (b, False)) if x.entry_none(v.a, r)]

    def is_zero(self, at: Lin, st: State) -> list[tuple[State, bool]]:
        a, b = st.copy(), st
        return [(x, r) for x, r in ((a, True), (b, False)) if x.entry_zero(at, r)]

    def compare(self, a: V, op: ast.cmpop, b: V, st: State) -> list[tuple[State, bool]]:
        if isinstance(op, (ast.NotIn, ast.NotEq, ast.IsNot)):
            pos = {ast.NotIn: ast.In, ast.NotEq: ast.Eq, ast.IsNot: ast.Is}[type(op)]()
            return [(x, not r) for x, r in self.compare(a, pos, b, st)]
        if isinstance(op, ast.In):
            if b.k != "tuple":
                return self.either(st)
            out, cur = [], [st]
            for v in b.a:
                nxt = []
                for x in cur:
                    for y, r in self.compare(a, ast.Eq(), v, x):
                        (out if r else nxt).append(y)
                cur = nxt
            return [(x, True) for x in out] + [(x, False) for x in cur]
        if isinstance(op, (ast.Is, ast.Eq)) and "none" in (a.k, b.k):
            return self.is_none(b if a.k == "none" else a, st)
        if a.k == "const" and isinstance(a.a, bool) and b.k in ("elem", "int"):
            a = integer(num(int(a.a)))
        if b.k == "const" and isinstance(b.a, bool) and a.k in ("elem", "int"):
            b = integer(num(int(b.a)))
        if a.k == b.k == "int":
            return self.compare_ints(a.a, b.a, SIGNS[type(op)], st)
        if "elem" in (a.k, b.k) and "int" in (a.k, b.k):
            v, o = (a, b) if a.k == "elem" else (b, a)
            sign = SIGNS[type(op)] if a.k == "elem" else FLIP[SIGNS[type(op)]]
            out = []
            for x, none in self.is_none(v, st):
                if none:
                    if sign == "==":
                        out.append((x, False))
                    continue  # An error otherwise.
                if o.a[1]:
                    out.extend(self.either(x))
                    continue
                # The entries are 0 or 1.
                for y, z in self.is_zero(v.a, x):
                    out.append((y, OPS[sign](0 if z else 1, o.a[0])))
            return out
        if a.k == b.k == "const":
            return [(st, a.a is b.a if isinstance(op, ast.Is) else a.a == b.a)] if isinstance(op, (ast.Is, ast.Eq)) else self.either(st)
        return self.either(st)

    def compare_ints(self, a: Lin, b: Lin, op: str, st: State) -> list[tuple[State, bool]]:
        d = sub(b, a)
        if op == "<":
            ways = [([plus(d, -1)], True), ([sub(num(0), d)], False)]
        elif op == "<=":
            ways = [([d], True), ([plus(sub(num(0), d), -1)], False)]
        elif op in (">", ">="):
            return self.compare_ints(b, a, FLIP2[op], st)
        else:
            ways = [([d, sub(num(0), d)], True), ([plus(d, -1)], False), ([plus(sub(num(0), d), -1)], False)]
        out = []
        for facts, r in ways:
            x = st.copy()
            if all(x.assume(f) for f in facts) and x.possible():
                out.append((x, r))
        return out


def length(s: V) -> Lin:
    (lo, hi, step) = s.a
    return sub(hi, lo) if step > 0 else sub(lo, hi)


def elem(k: Lin) -> V:
    return V("elem", k)


def stored(s: ast.AST) -> set[str]:
    return {n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


# What can be an invariant: (kind, the names it is about, numbers).


def candidates(ints: list[str], entry: dict[str, Lin], n: Lin, fixed: list[Lin]) -> list[tuple]:
    res: list[tuple] = []
    for v in ints:
        e = entry[v]
        for lo, hi in ((1, 0), (0, -1)):
            res.append(("null-down", (v,), e, lo, hi))
        for lo, hi in ((0, -1), (1, 0)):
            res.append(("null-up", (v,), e, lo, hi))
        res.append(("le", (v,), e))
        res.append(("ge", (v,), e))
        for c in (0, 1, -1):
            res.append(("least", (v,), c))
            res.append(("most", (v,), plus(n, -c)))
        for c in (0, 1, -1):
            res.append(("value", (v,), c))
        for f in fixed:
            for c in (0, 1, -1):
                res.append(("le", (v,), plus(f, c)))
                res.append(("ge", (v,), plus(f, c)))
    for v in ints:
        for w in ints:
            if v == w:
                continue
            for lo in (0, 1):
                for hi in (-1, 0):
                    res.append(("null", (v, w), lo, hi))
            res.append(("below", (v, w), 0))
            res.append(("below", (v, w), -1))
            if v < w:
                res.append(("diff", (v, w), sub(entry[v], entry[w])))
                res.append(("sum", (v, w), add(entry[v], entry[w])))
    return res


def shape(c: tuple, at: dict[str, Lin]) -> tuple[str, t.Any, t.Any]:
    k, names = c[0], c[1]
    v = at[names[0]]
    if k == "null-down":
        return "null", plus(v, c[3]), plus(c[2], c[4])
    if k == "null-up":
        return "null", plus(c[2], c[3]), plus(v, c[4])
    if k == "le":
        return "ge", sub(c[2], v), None
    if k == "ge":
        return "ge", sub(v, c[2]), None
    if k == "least":
        return "ge", plus(v, -c[2]), None
    if k == "most":
        return "ge", sub(c[2], v), None
    if k == "value":
        return "value", plus(v, c[2]), None
    w = at[names[1]]
    if k == "null":
        return "null", plus(v, c[2]), plus(w, c[3])
    if k == "below":
        return "ge", plus(sub(w, v), c[2]), None
    return "eq", sub(v, w) if k == "diff" else add(v, w), c[2]


def holds(c: tuple, at: dict[str, Lin], st: State) -> bool:
    k, a, b = shape(c, at)
    if k == "null":
        return st.is_null(a, b)
    if k == "value":
        return st.is_value(a)
    return st.proves(a) if k == "ge" else st.eq(a, b)


def use(c: tuple, at: dict[str, Lin], st: State) -> bool:
    k, a, b = shape(c, at)
    if k == "null":
        st.null.append((a, b))
        return True
    if k == "value":
        st.value.append(a)
        return True
    if k == "ge":
        return st.assume(a)
    return st.assume(sub(a, b)) and st.assume(sub(b, a))


def text(c: tuple) -> str:
    return f"{c[0]}({', '.join(c[1])})"


SIGNS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.Is: "=="}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "=="}
FLIP2 = {">": "<", ">=": "<="}
OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b}
