ID = 'c40-suspend'
PROPERTY = 'C40'
NEEDS = 'A client that asks to keep the playbook suspended when it disconnects.'
BREAKS = 'Suspending is announced although no part of the adapter does it.'
FILE = 'adapter'
OLD = """                    supports_suspend_debuggee=False,
"""
NEW = """                    supports_suspend_debuggee=True,
"""
DEMO = r'''
import io
import os
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


def fail(msg):
    sys.stderr.write(f"VIOLATED: {msg}\n")
    os._exit(1)


server = da.DAServer()
out = []
server.send_to_client = lambda m, orig=None: out.append(m) or server._incoming_requests.pop(getattr(m, "request_seq", None), None) or 1

server._process_msg(dap.InitializeRequest(adapter_id="x"))
if out[0].capabilities.supports_suspend_debuggee:
    fail("announced")
'''
