ID = 'c10-lost-debuggee'
PROPERTY = 'C10'
NEEDS = 'A connection to the debuggee that breaks with an error while requests are outstanding.'
BREAKS = 'Only an error of the adapter itself fails the outstanding requests.'
FILE = 'adapter'
OLD = """        if exp:
            # For every"""
NEW = """        if exp and not from_debuggee:
            # For every"""
DEMO = r'''
import io
import os
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


def fail(msg):
    sys.stderr.write(f"VIOLATED: {msg}\n")
    os._exit(1)


server = da.DAServer()
out = []
server.send_to_client = lambda m, orig=None: out.append(m) or server._incoming_requests.pop(getattr(m, "request_seq", None), None) or 1

req = dap.ThreadsRequest()
req.seq = 3
server._incoming_requests[3] = req
server._proto.connection_closed(OSError("lost"))
if not [m for m in out if isinstance(m, dap.ErrorResponse) and m.request_seq == 3]:
    fail("the request is not failed")
'''
