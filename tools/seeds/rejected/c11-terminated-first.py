ID = 'c11-terminated-first'
PROPERTY = 'C11'
NEEDS = 'A client that disconnects.'
BREAKS = 'The end of the session is told before the response to the request that ends it.'
FILE = 'adapter'
OLD = """        for req in list(self._incoming_requests.values()):
            if isinstance(req, dap.DisconnectRequest):
                self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))

        if exp:"""
NEW = """        if from_debuggee and not exp and not self._terminated_sent:
            self._terminated_sent = True
            self.send_to_client(dap.TerminatedEvent())

        for req in list(self._incoming_requests.values()):
            if isinstance(req, dap.DisconnectRequest):
                self.send_to_client(dap.DisconnectResponse(request_seq=req.seq))

        if exp:"""
DEMO = r'''
import io
import os
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


def fail(msg):
    sys.stderr.write(f"VIOLATED: {msg}\n")
    os._exit(1)


server = da.DAServer()
out = []
server.send_to_client = lambda m, orig=None: out.append(m) or server._incoming_requests.pop(getattr(m, "request_seq", None), None) or 1

req = dap.DisconnectRequest()
req.seq = 3
server._incoming_requests[3] = req
server._proto.connection_closed(None)
if [type(m) for m in out] != [dap.DisconnectResponse, dap.TerminatedEvent]:
    fail(out)
'''
