ID = 'c35-third-plain'
PROPERTY = 'C35'
NEEDS = 'A listening debuggee with TLS where the first two connections fail their handshake.'
BREAKS = 'The handshake is only tried twice, the third connection is used without TLS.'
FILE = 'mpq'
OLD = """            while True:
                try:
                    conn.wrap_tls(
                        self._ssl_context,
                        self._cancel_token,
                        server_side=True,
"""
NEW = """            for _ in range(2):
                try:
                    conn.wrap_tls(
                        self._ssl_context,
                        self._cancel_token,
                        server_side=True,
"""
DEMO = r'''
import os
import pickle
import socket
import ssl
import sys
import threading
import ansibug.dap as dap
from ansibug._mp_queue import MPProtocol, ServerMPQueue

got = threading.Event()


class Proto(MPProtocol):
    def on_msg_received(self, msg):
        got.set()



queue = ServerMPQueue("tcp://127.0.0.1:0", proto=Proto, ssl_context=ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER))
port = queue._socket.getsockname()[1]


def serve():
    try:
        queue.start(timeout=5)
    except BaseException as e:
        print(type(e))


threading.Thread(target=serve, daemon=True).start()
body = pickle.dumps(dap.InitializedEvent())
for i in range(3):
    s = socket.create_connection(("127.0.0.1", port), timeout=5)
    s.sendall(len(body).to_bytes(4, byteorder="little") + body)
    s.settimeout(2)
    try:
        s.recv(1)
    except OSError:
        pass
    s.close()
got.wait(1)
if got.is_set():
    print("VIOLATED: a message was read without TLS")
    sys.stdout.flush()
    os._exit(1)
os._exit(0)
'''
