"""Prints the table of planted changes and the finding that reports each: seedtable.py CATCHLOG."""
import json, re, sys
for line in open(sys.argv[1]):
    m = re.match(r"(\S+) (C\d\d) rc=(\d) (.*)", line)
    if not m: continue
    i, p, rc, rest = m.groups()
    rule = re.search(r"finding (\S+?)@", rest)
    needs = json.load(open(f"/verif/seeded/{i}/meta.json"))["needs"]
    how = f"`{rule.group(1)}`" if rule else ("reported" if rc == "1" else "not reported")
    print(f"| {i} | {p} | {how} | {needs[:140]} |")
