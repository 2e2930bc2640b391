"""Builds and confirms planted changes: seed.py SPEC…

A spec (a .py file in tools/seeds) defines ID, PROPERTY, NEEDS, BREAKS, FILE, OLD, NEW (or EDITS) and DEMO.
The change is confirmed in a scratch copy: the demonstration passes without it and fails with it, and the
stable tests pass with it.  The result is /verif/seeded/ID.
"""

import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
STRAT = "src/ansibug/ansible_collections/ansibug/dap/plugins/strategy/debug.py"
ALIAS = {
    "strategy": STRAT,
    "callback": "src/ansibug/ansible_collections/ansibug/dap/plugins/callback/debug.py",
    "bp": "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_breakpoints.py",
    "repl": "src/ansibug/ansible_collections/ansibug/dap/plugins/plugin_utils/_repl_util.py",
    "adapter": "src/ansibug/_debug_adapter.py",
    "debuggee": "src/ansibug/_debuggee.py",
    "mpq": "src/ansibug/_mp_queue.py",
    "sock": "src/ansibug/_socket_helper.py",
    "tls": "src/ansibug/_tls.py",
    "main": "src/ansibug/__main__.py",
    "exec": "src/ansibug/_exec_playbook.py",
    "dap": "src/ansibug/dap/_adapter.py",
    "msgs": "src/ansibug/dap/_messages.py",
    "req": "src/ansibug/dap/_requests.py",
    "resp": "src/ansibug/dap/_responses.py",
    "ev": "src/ansibug/dap/_events.py",
    "types": "src/ansibug/dap/_types.py",
}
SH = """#!/bin/bash
# Run in the repository: exit 0 when the property holds in the demonstrated case.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="$(mktemp -d)" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src:$PWD/src/ansibug"
timeout 120 /opt/venv/bin/python "$HERE/demo.py"
rc=$?
rm -rf "$HOME"
exit $rc
"""
SCRATCH = pathlib.Path("/tmp/seedwork")


def run(cmd: list[str], cwd: pathlib.Path) -> int:
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode


def build(spec: str, tests: bool) -> str:
    s = runpy.run_path(spec)
    sid = s["ID"]
    edits = s.get("EDITS") or [(s["FILE"], s["OLD"], s["NEW"])]
    work = SCRATCH / sid
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(work)], check=True)
    for name, old, new in edits:
        f = work / ALIAS.get(name, name)
        text = f.read_text()
        if text.count(old) != 1:
            return f"{sid}: BAD, {text.count(old)} matches in {name}"
        f.write_text(text.replace(old, new))
    patch = subprocess.run(["git", "diff"], cwd=work, capture_output=True, text=True, check=True).stdout
    out = ROOT / "seeded" / sid
    tmp = SCRATCH / (sid + ".demo")
    shutil.rmtree(tmp, ignore_errors=True)
    tmp.mkdir()
    (tmp / "patch.diff").write_text(patch)
    (tmp / "demo.sh").write_text(SH)
    os.chmod(tmp / "demo.sh", 0o755)
    (tmp / "demo.py").write_text(s["DEMO"].lstrip("\n"))
    (tmp / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    bad = subprocess.run(["bash", str(tmp / "demo.sh")], cwd=work, capture_output=True, text=True)
    good = subprocess.run(["bash", str(tmp / "demo.sh")], cwd="/repo", capture_output=True, text=True)
    res = f"demo clean={good.returncode} patched={bad.returncode}"
    ok = good.returncode == 0 and bad.returncode != 0
    if not ok or "-v" in sys.argv:
        res += "\n" + (good.stdout + good.stderr)[-1500:] + "\n--patched\n" + (bad.stdout + bad.stderr)[-1500:]
    if ok and tests:
        link = pathlib.Path(f"/tmp/seedtest-{sid}.json")
        base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {work} /repo && bash /opt/vp/test.sh {link}"], capture_output=True, text=True)
        got = json.loads(link.read_text()) if link.exists() else {}
        link.unlink(missing_ok=True)
        stable = base.get("stable") or base.get("passed") or []
        passed = set(got.get("passed", []))
        miss = [x for x in stable if x not in passed]
        res += f" tests failed={len(miss)} of {len(stable)} {miss[:3]} {r.stderr[-200:] if not got else ''}"
        ok = bool(stable) and not miss
    if ok:
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
    shutil.rmtree(work, ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    return f"{sid}: {'KEPT' if ok else 'REJECTED'} {res}"


if __name__ == "__main__":
    SCRATCH.mkdir(exist_ok=True)
    for x in [a for a in sys.argv[1:] if not a.startswith("-")]:
        print(build(x, "--no-tests" not in sys.argv), flush=True)
