"""Obligations, findings, evidence and the outcome of a check."""

from __future__ import annotations

import importlib
import json
import os
import pathlib
import sys
import time
import traceback
import typing as t

from .program import AnalysisError, FuncInfo, Program
from .state import Ev
from .walk import Path, Walker

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / "known_findings.txt"
EVIDENCE = pathlib.Path(os.environ.get("SA_EVIDENCE", str(ROOT / "evidence")))
REPLAY = EVIDENCE


class Finding:
    def __init__(self, rule: str, construct: str, loc: str, msg: str, path: str) -> None:
        self.rule = rule
        self.construct = construct
        self.loc = loc
        self.msg = msg
        self.path = path

    @property
    def key(self) -> str:
        return f"{self.rule}@{self.construct}"

    def __str__(self) -> str:
        return f"{self.key}: {self.msg} [{self.loc}]" + (f"\n      path: {self.path}" if self.path else "")


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid: str, program: Program, tier: str) -> None:
        self.pid = pid
        self.program = program
        self.tier = tier
        self.findings: dict[str, Finding] = {}
        self.rules: dict[str, int] = {}
        self.failed: dict[str, int] = {}
        self.functions: set[str] = set()
        self.entries: dict[str, int] = {}
        self.paths = 0
        self.events = 0
        self.floors: dict[str, int] = {}
        self.assumptions: list[str] = []
        self._cache: dict = {}
        self.blocked: list = []
        self.closures: dict = {}

    @property
    def thorough(self) -> bool:
        return self.tier == "thorough"

    # --- obligations -------------------------------------------------------
    def must(self, cond: t.Any, rule: str, where: t.Any, msg: str, path: Path | None = None) -> bool:
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            return True
        self.failed[rule] = self.failed.get(rule, 0) + 1
        construct, loc = self._where(where)
        f = Finding(rule, construct, loc, msg, path.conditions()[:400] if path is not None else "")
        self.findings.setdefault(f.key, f)
        return False

    def _where(self, where: t.Any) -> tuple[str, str]:
        if isinstance(where, Ev):
            return (where.func.qual if where.func else "?", where.loc)
        if isinstance(where, FuncInfo):
            return where.qual, where.loc
        if isinstance(where, Path):
            first = next((e for e in where.events if e.func is not None), None)
            return self._where(first) if first is not None else ("?", "?")
        if isinstance(where, str):
            f = self.program.find_func(where)
            return where, f.loc if f is not None else where
        return str(where), str(getattr(where, "loc", where))

    def floor(self, got: int, least: int, what: str) -> None:
        """The rule must have had something to be applied to."""
        self.floors[what] = got
        if got < least:
            raise AnalysisError(f"only {got} instances of '{what}', {least} expected")

    # --- analysis ----------------------------------------------------------
    def walk(self, func: str | FuncInfo, *, opaque: t.Iterable[str] = (), raise_mode: str = "try", self_type: str | None = None, args=None, init=None, raw: bool = False, **opts: t.Any) -> list[Path]:
        w = Walker(self.program, opaque=[q for q in opaque if self.program.find_func(q) or not q.startswith("ansibug")], raise_mode=raise_mode, **opts)
        return self.use(w, func, self_type=self_type, args=args, init=init, raw=raw)

    def use(self, w: Walker, func: str | FuncInfo, **kw: t.Any) -> list[Path]:
        paths = w.walk(func, **kw)
        name = func.qual if isinstance(func, FuncInfo) else func
        self.entries[name] = self.entries.get(name, 0) + len(paths)
        self.paths += len(paths)
        self.events += w.n_events
        self.blocked += w.blocked
        self.closures.update(w.closures)
        self.functions |= w.functions_seen
        return paths

    # --- outcome -----------------------------------------------------------
    def evidence(self, wall: float, known: list[str]) -> dict:
        n = sum(self.rules.values())
        bad = sum(self.failed.values())
        return {
            "property": self.pid,
            "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "0") or 0),
            "level": "other",
            "coverage": {
                "explanation": "Static path sensitive dataflow analysis of the current source: every path class of the "
                "entry points below, callees inlined, was enumerated and each rule applied to every instance on every path.",
                "source_digest": self.program.digest(),
                "entry_points": self.entries,
                "functions_analysed": sorted(self.functions),
                "paths": self.paths,
                "events": self.events,
                "obligations": n,
                "discharged": n - bad,
                "rules": {r: {"obligations": c, "violated": self.failed.get(r, 0)} for r, c in sorted(self.rules.items())},
                "instances": self.floors,
                "findings": [str(f) for f in self.findings.values()],
                "known_findings": known,
            },
            "assumptions": self.assumptions,
            "wall_s": round(wall, 3),
            "violations": len([f for f in self.findings.values() if f.key not in known]),
        }


def known_findings(pid: str) -> list[str]:
    res = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if line.startswith(f"known: property={pid} key="):
                res.append(line.split(" key=", 1)[1].split(" ", 1)[0])
    return res


def find_rule(pid: str) -> t.Callable[[Check], None]:
    here = pathlib.Path(__file__).parent / "checks"
    for p in sorted(here.glob("*.py")):
        if p.stem.startswith("_"):
            continue
        mod = importlib.import_module(f"sa.checks.{p.stem}")
        fn = getattr(mod, pid.lower(), None)
        if fn is not None:
            return fn
    raise AnalysisError(f"no check for {pid}")


def run(pid: str, tier: str, *, write: bool = True, program: Program | None = None) -> int:
    sys.setrecursionlimit(20000)
    start = time.time()
    chk = None
    try:
        chk = Check(pid, program or Program(), tier)
        fn = find_rule(pid)
        chk.assumptions = [a.strip() for a in (fn.__doc__ or "").split("\n\n", 1)[1:] for a in a.split("\n") if a.strip()]
        fn(chk)
        if not chk.rules:
            raise AnalysisError("no obligation was checked")
    except AnalysisError as e:
        print(f"ERROR property={pid} analysis broken: {e}")
        if os.environ.get("SA_DEBUG"):
            traceback.print_exc()
        # What was found until then stands.
        if chk is None or not [f for f in chk.findings.values() if f.key not in known_findings(pid)]:
            return 2
    known = known_findings(pid)
    ev = chk.evidence(time.time() - start, known)
    if write:
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{pid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    cov = ev["coverage"]
    print(
        f"{pid}: {cov['obligations']} obligations of {len(chk.rules)} rules, {cov['paths']} paths, {len(chk.functions)} functions, "
        f"{ev['wall_s']}s"
    )
    rc = 0
    new = [f for f in chk.findings.values() if f.key not in known]
    for f in chk.findings.values():
        if f.key in known:
            print(f"KNOWN-FINDING: property={pid} {f}")
    for f in new:
        print(f"  finding {f}")
    if new:
        replay = EVIDENCE / f"{pid}.violation.txt"
        if write:
            replay.write_text("\n".join(str(f) for f in new) + "\n")
        print(f"VIOLATION property={pid} replay={replay}")
        rc = 1
    return rc
