ID = "c30-python-unquoted"
PROPERTY = "C30"
NEEDS = "A Python interpreter below a directory whose name has a space."
BREAKS = "The launch script does not quote the interpreter, the shell splits its path and the playbook is not run."
FILE = "adapter"
OLD = "python=shlex.quote(sys.executable),"
NEW = "python=sys.executable,"
DEMO = '''
import os
import pathlib
import subprocess
import sys
import tempfile
from unittest import mock

import ansibug.dap as dap
from ansibug._debug_adapter import DAServer

with tempfile.TemporaryDirectory() as d:
    tmp = pathlib.Path(d)
    bindir = tmp / "my python"
    bindir.mkdir()
    fake = bindir / "python"
    fake.write_text('#!/bin/sh\\nif [ "$1" = -m ]; then for a in "$@"; do echo "$a"; done >> "%s/args"; fi\\n' % d)
    fake.chmod(0o755)
    srv = DAServer(tmp)
    sent = []
    srv.send_to_client = lambda m: sent.append(m) or len(sent)
    with mock.patch.object(sys, "executable", str(fake)):
        srv._process_msg(dap.LaunchRequest(arguments={"playbook": "main.yml", "args": ["-e", "a b"]}))
    req = [m for m in sent if isinstance(m, dap.RunInTerminalRequest)][0]
    subprocess.run(req.args, cwd=d, stderr=subprocess.DEVNULL)
    got = (tmp / "args").read_text().splitlines() if (tmp / "args").exists() else None
    for q in (srv._launch_queue, srv._debuggee):
        q.stop()
    if got is None or got[:3] != ["-m", "ansibug", "connect"] or got[-3:] != ["main.yml", "-e", "a b"]:
        print("VIOLATED: the playbook was run with", got)
        sys.exit(1)
'''
