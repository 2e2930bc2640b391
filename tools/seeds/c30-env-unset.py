ID = 'c30-env-unset'
PROPERTY = 'C30'
NEEDS = 'A launch configuration that unsets a variable by giving it no value.'
BREAKS = 'Variables without a value are left out, the playbook still sees them.'
FILE = 'adapter'
OLD = """                env=launch_args.env,
"""
NEW = """                env={k: v for k, v in launch_args.env.items() if v is not None},
"""
DEMO = r'''
import io
import os
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


def fail(msg):
    sys.stderr.write(f"VIOLATED: {msg}\n")
    os._exit(1)


server = da.DAServer()
out = []
server.send_to_client = lambda m, orig=None: out.append(m) or server._incoming_requests.pop(getattr(m, "request_seq", None), None) or 1

import tempfile

with tempfile.TemporaryDirectory() as d:
    server._temp_dir = d
    server._process_msg(dap.LaunchRequest(arguments={"playbook": "main.yml", "env": {"A": "1", "B": None}}))
    env = out[0].env
    server._launch_queue.stop()
    server._debuggee.stop()
if env != {"A": "1", "B": None}:
    fail(f"env {env}")
'''
