ID = 'c39-requests-iterated'
PROPERTY = 'C39'
NEEDS = 'Two outstanding requests when the adapter fails.'
BREAKS = 'The outstanding requests are iterated while answering them removes them, the second one stays without an answer.'
FILE = 'adapter'
OLD = """            for req in list(self._incoming_requests.values()):
                resp = dap.ErrorResponse(
"""
NEW = """            for req in self._incoming_requests.values():
                resp = dap.ErrorResponse(
"""
DEMO = r'''import io
import sys

import ansibug.dap as dap
from ansibug import _debug_adapter as da

real, sys.stdout = sys.stdout, io.TextIOWrapper(io.BytesIO(), write_through=True)
server = da.DAServer()


def make(seq):
    req = dap.ThreadsRequest()
    req.seq = seq
    return req


for seq in (1, 2):
    server._incoming_requests[seq] = make(seq)
try:
    server.stop(Exception("failed"))
except RuntimeError as e:
    sys.exit(f"VIOLATED: {e}")
if server._incoming_requests:
    sys.exit("VIOLATED: a request was not answered")
'''
