#!/bin/bash
# Rewrites the table of planted changes at the end of DESIGN.md: seedtable.sh CATCHLOG
cd "$(dirname "$0")/.."
python3 - "$1" <<'P'
import subprocess, sys
t = open("DESIGN.md").read()
mark = "`tools/catch.sh` says which check catches which:\n"
head = t.split(mark)[0] + mark
rows = subprocess.run(["python3", "tools/seedtable.py", sys.argv[1]], capture_output=True, text=True).stdout
open("DESIGN.md", "w").write(head + "\n| change | check | reported as | needs |\n|---|---|---|---|\n" + rows)
P
