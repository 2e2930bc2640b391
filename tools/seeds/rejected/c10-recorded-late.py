ID = 'c10-recorded-late'
PROPERTY = 'C10'
NEEDS = 'A debuggee that answers a request before the adapter goes on.'
BREAKS = 'The request is recorded as outstanding after it was passed on, one that has been answered by then stays outstanding and is failed at the end.'
FILE = 'adapter'
OLD = """                if isinstance(msg, dap.Request):
                    self._incoming_requests[msg.seq] = msg

                if isinstance(msg, dap.Request) and self._debuggee:
                    if isinstance(msg, dap.DisconnectRequest):
                        is_connected = False
                        self._send_disconnect(msg, self._debuggee)
                    else:
                        self._debuggee.send(msg)

                else:
"""
NEW = """                if isinstance(msg, dap.Request) and self._debuggee:
                    if isinstance(msg, dap.DisconnectRequest):
                        is_connected = False
                        self._incoming_requests[msg.seq] = msg
                        self._send_disconnect(msg, self._debuggee)
                    else:
                        self._debuggee.send(msg)
                        self._incoming_requests[msg.seq] = msg

                else:
                    if isinstance(msg, dap.Request):
                        self._incoming_requests[msg.seq] = msg

"""
DEMO = r'''
import io
import os
import sys
import ansibug.dap as dap
from ansibug import _debug_adapter as da


def fail(msg):
    sys.stderr.write(f"VIOLATED: {msg}\n")
    os._exit(1)


server = da.DAServer()
out = []
server.send_to_client = lambda m, orig=None: out.append(m) or server._incoming_requests.pop(getattr(m, "request_seq", None), None) or 1

import pathlib


class Debuggee:
    def send(self, msg):
        server.send_to_client(dap.ThreadsResponse(request_seq=msg.seq, threads=[]))


server._debuggee = Debuggee()
body = b'{"seq": 1, "type": "request", "command": "threads"}'
data = b"Content-Length: %d\r\n\r\n" % len(body) + body
sys.stdin = type("I", (), {"buffer": type("B", (), {"raw": io.BytesIO(data)})})
server.start()
if server._incoming_requests:
    fail("the answered request is outstanding")
'''
