ID = 'c11-restart-keeps-reading'
PROPERTY = 'C11'
NEEDS = 'A disconnect request with restart set.'
BREAKS = 'The adapter waits for further messages after it relayed such a disconnect.'
FILE = 'adapter'
OLD = """                        is_connected = False
"""
NEW = """                        is_connected = bool(msg.restart)
"""
DEMO = r'''import io
import json
import os
import sys
import threading
from types import SimpleNamespace as NS

from ansibug import _debug_adapter as da

sys.stdout = io.TextIOWrapper(io.BytesIO(), write_through=True)
r, w = os.pipe()
sys.stdin = NS(buffer=NS(raw=os.fdopen(r, "rb", buffering=0)))
server = da.DAServer()
server._debuggee = NS(send=lambda m: None, stop=lambda: None)
body = json.dumps({"seq": 1, "type": "request", "command": "disconnect", "arguments": {"restart": True}}).encode()
os.write(w, b"Content-Length: %d\r\n\r\n" % len(body) + body)
t = threading.Thread(target=server.start, daemon=True)
t.start()
t.join(5)
if t.is_alive():
    sys.stderr.write("still reading after the disconnect\n")
    os._exit(1)
os._exit(0)
'''
