"""quiet.py FILE [CASE...]: cases as in mut.py ('### NAME path', old, =====, new, '@@@ [path]'); every check has to stay quiet on each."""
import os, pathlib, re, shutil, subprocess, sys, json
from concurrent.futures import ThreadPoolExecutor

sys.argv, argv = [sys.argv[0], os.devnull], sys.argv
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.py")).read().split("txt=open")[0])
exec("def build" + open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mut.py")).read().split("def build")[1].split("def one")[0])
IDS = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
cases = [c for c in re.split(r"^### ", open(argv[1]).read(), flags=re.M) if c.strip()]
only = argv[2:]
jobs = []
for i, case in enumerate(cases):
    head, _, body = case.partition("\n")
    name, fn = head.split()[:2]
    if only and name not in only and str(i) not in only:
        continue
    d = pathlib.Path(f"/tmp/q/{i}-{name}")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(R / "src", d / "src")
    bad = build(d, AL.get(fn, fn), body)
    if bad:
        print(f"[{i}] {name} BAD CASE {bad}")
        continue
    for f in (d / "src").rglob("*.py"):
        compile(f.read_text(), str(f), "exec")
    jobs += [(i, name, d, pid) for pid in IDS]


def one(job):
    i, name, d, pid = job
    r = subprocess.run([sys.executable, "/verif/check.py", pid], env={**os.environ, "SA_REPO": str(d), "SA_EVIDENCE": f"/tmp/q/ev{i}"}, capture_output=True, text=True)
    if r.returncode:
        o = [l for l in (r.stdout + r.stderr).splitlines() if "finding" in l or "ERROR" in l or "Error" in l]
        return f"[{i}] {name} {pid} rc={r.returncode} {o[0][:260] if o else ''}"


with ThreadPoolExecutor(8) as ex:
    for r in ex.map(one, jobs):
        if r:
            print(r, flush=True)
print(len({j[0] for j in jobs}), "cases")
