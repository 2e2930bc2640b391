import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from _prelude import STRATEGY
ID = 'c08-joins-itself'
PROPERTY = 'C08'
NEEDS = 'A connection that ends with an error.'
BREAKS = 'Only an orderly end is marked as coming from the connection, otherwise its thread waits for itself.'
FILE = 'debuggee'
OLD = """        self._debugger.shutdown(from_send_thread=True)
"""
NEW = """        self._debugger.shutdown(from_send_thread=exp is None)
"""
DEMO = STRATEGY + r'''
import socket
import struct
from ansibug._mp_queue import ServerMPQueue

import tempfile
os.environ["TMPDIR"] = tempfile.mkdtemp()
addr = debugger.start(f"uds://{os.environ['TMPDIR']}/s", "listen")
conn = socket.socket(socket.AF_UNIX)
conn.connect(addr[6:])
conn.recv(1)
until(lambda: debugger._adapter_connected)
time.sleep(0.5)
conn.sendall(b"\x04\x00\x00\x00abcd")
t = debugger._send_thread
if not until(lambda: debugger._configuration_done.is_set()):
    fail("the end of the connection is never handled")
os._exit(0)
'''
